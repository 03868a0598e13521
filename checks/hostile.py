"""H01: decoders never abort on hostile bytes.  H02: their allocations are bounded.  H04: no influence between operations."""
from engine import build
from engine import ranges, schema
from engine.interp import *
from engine.replay import Free
from engine.genrun import *
from engine.facts import ty_str
from checks.runtime import *
import os, re

BR = 'bitreader::BitReader'
DCT = 'zserio::ztype::array_traits::delta_context::DeltaContext'
PCN = 'zserio::ztype::array_traits::packing_context_node::PackingContextNode'

# library functions that abort for some arguments and have no model of their own
ABORTS = re.compile(r'(^core::slice::.*::(copy_from_slice|clone_from_slice|split_at|split_at_mut|copy_within|rotate_left|rotate_right|swap|chunks|chunks_exact|windows|array_windows|rchunks|chunks_mut|chunks_exact_mut|select_nth_unstable\w*)$'
    r'|^alloc::vec::Vec::.*::(remove|insert|swap_remove|drain|split_off|splice|copy_within|truncate_front)$'
    r'|^alloc::string::String::(remove|insert|insert_str|drain|split_off|truncate|replace_range)$|^core::str::.*::split_at$'
    r'|^alloc::collections::.*::(remove|insert|swap|split_off|range)$'
    r'|^core::cell::RefCell::.*::(borrow|borrow_mut|replace|swap)$|^std::sync::.*::(lock|read|write)$'
    r'|^core::num::.*::(pow|abs|ilog|ilog2|ilog10|isqrt|next_power_of_two|div_euclid|rem_euclid|div_ceil|div_floor|next_multiple_of|strict_\w+|from_str_radix|from_ascii_radix|unsigned_abs_diff)$'
    r'|::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked|unreachable_unchecked|unwrap_or_else_panic)$'
    r'|^core::iter::.*::step_by$|^core::char::.*::(from_digit|to_digit)$|^core::(panicking|option|result)::\w*(panic|failed|assert)\w*$|^std::process::(exit|abort)$|^std::rt::|panic_fmt$|begin_panic'
    r'|^core::ops::Index(Mut)?::index(_mut)?$|as core::ops::index::Index(Mut)?<.*::index(_mut)?$|^core::ops::(arith|bit)::\w+::\w+$'
    r'|^core::time::|^std::time::|^core::array::.*::try_into_unwrap$)')

def reads(b): return any(isreader(b.locals[i]) for i in range(1, b.argc + 1))
def isreader(t): return t is not None and t[0] == 'ref' and t[2][0] == 'adt' and t[2][1] == BR
def callees(b):
    for blk in b.blocks:
        t = blk[1]
        if t[0] == 'call' and isinstance(t[1], (list, tuple)):
            f = fnof(t)
            if f: yield f, t
def fnof(t):
    from engine.mirflow import callee
    return callee(t)

def entries(F, crate='zserio'):
    """decoders user code and generated code start from: trait implementations and public functions; helpers that are
    handed sizes by their callers are analysed inside those"""
    bs = {p: b for p, b in F.bodies.items() if b.crate == crate and not b.exp and b.kind != 'closure'}
    called = {}
    for q, b in F.bodies.items():
        for f, t in callees(b): called.setdefault(f[0], set()).add(b.crate if b.crate != crate else q)
    out = []
    for p, b in sorted(bs.items()):
        if reads(b):
            extra = [b.locals[i] for i in range(1, b.argc + 1) if not isreader(b.locals[i])]
            sized = any(tystr(t) for t in extra) or any(t[0] == 'ref' and tystr(t[2]) for t in extra)
            inner = {x for x in called.get(p, ()) if x in bs and x != p}
            outer = {x for x in called.get(p, ()) if x not in bs}
            if b.trait or not sized and b.pub or outer or not inner: out.append(b)
        elif b.pub and any(f[0].startswith(BR) and f[0].endswith('::new') for f, t in callees(b)): out.append(b)
    return out

class Decoder:
    """one decoder interpreted with every value read from the wire unconstrained"""
    def __init__(self, F, b, level, dcfacts=None, ctxsome=True, shape=None, pre=None):
        self.F, self.b = F, b
        w = self.w = Free(F, level)
        I = self.I = Interp(F, policy=w.policy); w.I = I
        I.rangehook = w.ranges; I.growops = True
        st = State(); fr = I.new_frame(b, {}, 0)
        self.facts = []
        for i in range(b.argc):
            t = b.locals[i + 1]
            y = SYM('a%d' % i, tystr(t) or None)
            if t[0] == 'ref':
                pretype(F, mk('deref', y), t[2])
                if t[2] == ('adt', PCN, ()):
                    if shape is not None: st.env[('P', y)] = shape
                    elif ctxsome:
                        dc = SYM('dc'); pretype(F, dc, ('adt', DCT, ()))
                        st.env[('P', y)] = mk('adt', PCN, 0, SYM('children'), SOME(dc)); self.ctx = y; self.dc = dc
                if t[2] == ('adt', DCT, ()):
                    dc = mk('deref', y); self.dc = dc; self.self_dc = y
            st.env[('L', fr.fid, i + 1)] = y
            if pre: pre(self, i, t, y)
        if dcfacts and hasattr(self, 'dc'):
            for f, iv in dcfacts.items():
                if iv is not None: self.facts.append((PROJ(self.dc, ('f', None, f)), iv))
        for x, iv in self.facts: st.pc[('iv', x)] = iv
        self.pc0 = dict(st.pc)
        self.out = I.run(fr, 0, {}, st).get('ret')
    def state(self, conds=()):
        st = State({}, [], dict(self.pc0))
        for c, v in conds:
            if c.op != 'int': self.I.assume(st, c, v)
        return st
    def aborts(self):
        """reachable aborts: (kind, condition, site)"""
        if self.out is None: 
            yield 'no-result', None, (self.b.path, self.b.line); return
        for e, conds, loops in leafconds(self.out.eff):
            if e[0] in ('panic', 'panicpath'):
                st = self.state(conds)
                if any(self.I.decide(st, c) is (not v) for c, v in conds if c.op != 'int' and c not in st.pc): continue
                if contradictory(self, conds): continue
                kind = e[2] if e[0] == 'panic' else 'diverges'
                if self.I.decide(st, e[1]) is False or infeasible(self.w, st, e[1]): continue
                yield kind, e[1], e[3] if e[0] == 'panic' else e[2]
        for p, sites in self.I.unknown.items():
            if ABORTS.search(p):
                for s in sites: yield 'call ' + p.split('::')[-1], None, s
    def reserves(self):
        for e, conds, loops in leafconds(self.out.eff):
            if e[0] == 'op' and e[1] == 'reserve': yield e[2][1], conds, loops, e[4]

def contradictory(D, conds):
    st = State({}, [], dict(D.pc0))
    for c, v in conds:
        if c.op == 'int':
            if bool(c.a[0]) != v: return True
            continue
        d = D.I.decide(st, c)
        if d is not None and d != v: return True
        D.I.assume(st, c, v)
    return False

# ------------------------------------------------------------------ what decoding can make of a delta context
def dcfields(F):
    return [i for i, f in enumerate(F.adts[DCT]['variants'][0]['fields']) if tystr(f[1]) in WIDTH]
def dcfix(F):
    """intervals of the integer fields of a DeltaContext that has only been used for decoding (inductive)"""
    fs = dcfields(F)
    new = [b for b in F.bodies.values() if b.crate == 'zserio' and not b.exp and b.argc == 0 and b.locals[0] == ('adt', DCT, ())]
    if not new: raise AnalysisError('no constructor of DeltaContext')
    iv = {f: None for f in fs}
    def join(f, r):
        if f not in iv: return False
        o = iv[f]
        n = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))
        iv[f] = n
        return n != o
    for b in new:
        I, fr, outs = setup_run(F, b, Free(F, 'raw').policy, [])
        s = outs['ret']; v = I.deep(s, s.env[('L', fr.fid, 0)])
        for f in fs: join(f, ranges.interval(I, s, PROJ(v, ('f', None, f))) or T.rng(tystr(F.adts[DCT]['variants'][0]['fields'][f][1])))
    steps = [b for b in F.bodies.values() if b.crate == 'zserio' and not b.exp and b.kind != 'closure' and reads(b) and b.argc >= 1 and b.locals[1] == ('ref', 1, ('adt', DCT, ()))]
    rounds = 0
    while True:
        rounds += 1; changed = False
        for b in steps:
            D = Decoder(F, b, 'raw', dict(iv))
            if D.out is None: continue
            v = D.I.deep(D.out, D.out.env.get(('P', D.self_dc), D.dc))
            for f in fs:
                full = T.rng(tystr(F.adts[DCT]['variants'][0]['fields'][f][1]))
                r = ranges.interval(D.I, D.state(), PROJ(v, ('f', None, f))) or full
                if join(f, r):
                    changed = True
                    if rounds > 4: iv[f] = full
        if not changed: return iv, len(steps), rounds

# ------------------------------------------------------------------ arithmetic the schema author wrote
OPKIND = {'overflow:Add': '+', 'overflow:Sub': '-', 'overflow:Mul': '*', 'overflow:Neg': 'neg', 'overflow:Shl': '<<', 'overflow:Shr': '>>', 'overflow:Div': '/', 'overflow:Rem': '%', 'div-zero': '/', 'rem-zero': '%'}
def norm(s): return s.replace('_', '').lower()
def expr_ops(e, out):
    if isinstance(e, tuple):
        if e and e[0] == 'bin': out.add(e[1])
        if e and e[0] == 'un' and e[1] == '-': out.add('neg')
        for x in e: expr_ops(x, out)
    elif isinstance(e, list):
        for x in e: expr_ops(x, out)
def author_ops(F):
    """operators used in the expressions of each schema type and its functions, by (normalised) type name"""
    S = schema.Schemas(os.path.join(F.dir, 'schemas'))
    own = {}
    for pkg in S.packages.values():
        for d in pkg.decls.values():
            out = set()
            if d.kind in ('struct', 'choice', 'union'):
                for f in d.fields: expr_ops([f.cond, f.array, f.align, f.offset, f.init, f.constraint, f.type.dyn, f.type.args], out)
                if d.kind == 'choice': expr_ops([d.selector, [l for l, _ in d.cases]], out)
                for fn in d.funcs: expr_ops(fn[2], out)
            own.setdefault(d.name, [set(), d]);  own[d.name][0].update(out)
    def of(d, seen=()):
        if d is None or d in seen: return set()
        if d.kind in ('subtype', 'instantiate') and d.type.name[-1] in own: return of(own[d.type.name[-1]][1], seen + (d,))
        return own[d.name][0]
    def lookup(name):
        n = norm(name); r = set(); best = 0
        for k, (ops, d) in own.items():
            if norm(k) == n: return of(d)
        for k, (ops, d) in own.items():
            if d.tparams and n.startswith(norm(k)): r |= of(d)
        return r
    return lookup
def author(lookup, F, kind, site):
    """an overflow in code that spells out an operator of the schema"""
    if kind not in OPKIND: return False
    b = F.bodies.get(site[0])
    if b is None or b.crate != 'corpus': return False
    t = b.self
    if t is None or t[0] != 'adt':
        m = re.match(r'<([\w:]+) as', site[0]) or re.match(r'([\w:]+)::\w+$', site[0])
        if not m: return False
        name = m.group(1).split('::')[-1]
    else: name = t[1].split('::')[-1]
    ops = lookup(name)
    return OPKIND[kind] in ops or kind.startswith('overflow:Div') and '/' in ops

def site_key(F, site, kind):
    return '%s:%s' % (re.sub(r'corpus::', '', site[0]), kind)

def describe(F, e, kind, cond, site):
    return '%s: %s%s at %s line %s is reachable from wire data' % (e, {'bounds': 'index out of range', 'unwrap-none': 'unwrap of None', 'diverges': 'panic', 'no-result': 'a function that never returns'}.get(kind, kind),
        '' if cond is None else ' when %s' % show(cond, 6)[:300], site[0], site[1])

def H01(c):
    c.rule('every decoder of the runtime (array traits, delta contexts, scalar, string, extern, array and top-level readers) and every generated decoder, plain and packed, interpreted with unconstrained wire data: every panic edge of its MIR (bounds, overflow, division, shift, unwrap, assert, explicit panic, unmodelled aborting library call) is infeasible on every path')
    c.rule('integer state of delta contexts is the inductive interval closure of decoding from a new context; contexts handed to element decoders hold what create_context built')
    c.rule('arithmetic exempted as written by the schema author must match an operator in that type\'s schema expressions')
    c.assumptions += ['bitreader 0.3.8 returns errors instead of panicking', 'packing context nodes have the shape create_packing_context gives them (G04)', 'array readers yield as many elements as requested (R01)', 'constants used as alignment are checked at the generated call sites', 'stack depth: only recursive types recurse; none but the listed finding']
    F = build.load('all')
    iv, nsteps, rounds = dcfix(F)
    for f, r in iv.items(): c.ok('delta context invariants', 1, 'DeltaContext.%s in %s' % (F.adts[DCT]['variants'][0]['fields'][f][0], r))
    es = entries(F)
    some = {}
    for im in F.impl_index.get(ATRAIT, []):
        if im['crate'] != 'zserio': continue
        b = F.bodies.get(im['items'].get('create_context'))
        if b is not None: some[im['self']] = creates(c, F, b)
    # runtime
    for b in es:
        ctxsome = some.get(b.self, True) if b.trait and b.trait[0] == ATRAIT else True
        one(c, F, b, 'raw', dict(dcfacts=iv, ctxsome=ctxsome, pre=aligned if b.name == 'align_reader' else None), None)
        c.count('runtime decoders')
    nodelta = {}
    for im in F.impl_index.get(ATRAIT, []):
        if im['crate'] != 'zserio': continue
        for n in ('to_u64', 'from_u64', 'create_context'):
            b = F.bodies.get(im['items'].get(n))
            if b is None: continue
            c.count('element conversions')
            bad = one(c, F, b, 'raw', {}, None, report=n == 'create_context')
            if bad and n != 'create_context':
                rp = F.bodies.get(im['items'].get('read_packed'))
                if rp is not None and deltas(F, rp): nodelta[im['self'][1]] = b.path
    # generated
    G = Gen(F); lookup = author_ops(F)
    for t, g in G.types.items():
        for n in ('zserio_read', 'zserio_read_packed'):
            b = g.fn(n)
            if b is None: continue
            one(c, F, b, 'gen', dict(shape=G.shape(g) if 'packed' in n else None), lookup, nodelta=nodelta)
            c.count('generated decoders')
    cyc = cycles(F, G)
    for k in cyc: c.violation('recursion:' + k, '%s decodes itself recursively, as deep as the data says: hostile data exhausts the stack' % k)
    c.ok('type graph', 1, '%d generated types searched for decoder recursion' % len(G.types))
    c.floor('runtime decoders', 60); c.floor('generated decoders', 120); c.floor('panic edges', 100); c.floor('delta-coded members', 100)

def aligned(D, i, t, y):
    if tystr(t) == 'u64': D.facts.append((y, (1, (1 << 64) - 1)))

def creates(c, F, b):
    w = Free(F, 'raw')
    I, fr, outs = setup_run(F, b, w.policy, [SYM('a0')])
    s = outs.get('ret')
    if s is None: return True
    v = I.deep(s, s.env[('L', fr.fid, 0)])
    return I.decide(s, is_some(PROJ(v, ('f', None, 1)))) is True

def deltas(F, b):
    D = Decoder(F, b, 'raw')
    return any(p.startswith(DCT + '::') for p in D.I.inlined)

def one(c, F, b, level, kw, lookup, nodelta=None, report=True):
    try:
        D = Decoder(F, b, level, **kw)
        bad = list(D.aborts())
        n = sum(1 for e in leaves(D.out.eff) if e[0] in ('panic', 'panicpath')) if D.out is not None else 0
    except (Mismatch, AnalysisError) as e:
        c.violation('undecided:' + b.path, '%s: %s' % (b.path, e)); return
    c.count('panic edges', panic_edges(F, D))
    for k, cond, site in bad:
        if lookup is not None and author(lookup, F, k, site):
            c.count('schema arithmetic'); continue
        if report: c.violation(site_key(F, site, k), describe(F, b.path, k, cond, site))
    if level == 'gen' and D.out is not None:
        for e, conds, loops in leafconds(D.out.eff):
            if e[0] == 'op' and e[1] in ('get', 'getelems', 'getone'):
                k = e[2][0]
                tr = k.a[0] if k.op == 'adesc' and not (isint(k.a[1]) and not k.a[1].a[0]) else k.a[2] if k.op == 'kind' and k.a[0] == 'ctx' else None
                if isinstance(tr, N):
                    c.check(not (tr.op == 'adt' and tr.a[0] in nodelta), site_key(F, e[4], 'nodelta'), '%s line %s delta-decodes elements with %s, whose conversion aborts (%s)' % (e[4][0], e[4][1], show(tr, 3), nodelta.get(tr.a[0] if tr.op == 'adt' else None)), 'delta-coded members')
            if e[0] == 'op' and e[1] == 'get' and e[2][0].a[0] == 'align':
                a = e[2][0].a[1]; r = ranges.interval(D.I, D.state(conds), a)
                c.check(r is not None and r[0] >= 1, site_key(F, e[4], 'align'), '%s line %s aligns to %s, which can be zero' % (e[4][0], e[4][1], show(a, 4)), 'alignments')
    if not bad: c.ok('decoders', 1, b.path)
    return bad

def panic_edges(F, D):
    n = 0
    for p in {D.b.path} | D.I.inlined:
        b = F.bodies.get(p)
        if b is None: continue
        for blk in b.blocks:
            t = blk[1]
            if t[0] == 'assert' or t[0] == 'call' and t[4] is None: n += 1
    return n

def cycles(F, G):
    """generated types whose decoder can reach itself"""
    names = {t: g for t, g in G.types.items()}
    def subs(t, out):
        if not isinstance(t, tuple): return
        if t in names: out.add(t)
        for x in t:
            if isinstance(x, tuple): subs(x, out)
    edges = {}
    for t, g in names.items():
        out = set()
        for v in g.adt['variants']:
            for f in v['fields']: subs(f[1], out)
        edges[t] = out
    r = []
    for t in names:
        seen = set(); q = list(edges[t])
        while q:
            x = q.pop()
            if x in seen: continue
            seen.add(x); q += edges[x]
        if t in seen: r.append(names[t].name)
    return r
# ------------------------------------------------------------------ H02
def rems(D): return {s for s, k in D.w.kinds.items() if k[0] == 'remaining'}
def caploads(x): return x.op == 'app' and x.a[0] == 'atomic_load'
def monoin(x, leaf):
    """x is bounded by the leaf quantity: built from it by steps that cannot increase it"""
    if leaf(x): return True
    if x.op == 'cast' and x.ty in WIDTH and x.a[0].ty in WIDTH and (x.ty not in T.SIGNED) : return monoin(x.a[0], leaf)
    if x.op == 'bin' and x.a[0] in ('Div', 'Shr', 'Sub', 'Rem', 'BitAnd'): return monoin(x.a[1], leaf) or x.a[0] == 'BitAnd' and monoin(x.a[2], leaf)
    if x.op == 'bin' and x.a[0] in ('Add',) and isint(x.a[2]) and x.a[2].a[0] <= 64: return monoin(x.a[1], leaf)
    return False
def grows(x, n):
    """x >= n: built from n by steps that cannot decrease it"""
    if x is n: return True
    if x.op == 'cast' and x.ty in WIDTH and x.a[0].ty in WIDTH and WIDTH[x.ty] >= WIDTH[x.a[0].ty]: return grows(x.a[0], n)
    if x.op == 'bin' and x.a[0] in ('Mul', 'Shl', 'Add', 'BitOr'):
        if grows(x.a[1], n) or x.a[0] != 'Shl' and grows(x.a[2], n):
            return x.a[0] != 'Mul' or not (isint(x.a[2]) and x.a[2].a[0] == 0)
    return False
def unwiden(n):
    while n.op == 'cast' and n.ty in WIDTH and n.a[0].ty in WIDTH and WIDTH[n.ty] >= WIDTH[n.a[0].ty]: n = n.a[0]
    return n
def bounded(D, st, n, leaf, lim, depth=6):
    """None when the reservation n is limited by the remaining data, the cap or a constant; else a description"""
    if isint(n): return None if n.a[0] <= lim else 'the constant %d' % n.a[0]
    r = ranges.interval(D.I, st, n)
    if r is not None and r[1] <= lim: return None
    if monoin(n, leaf): return None
    if n.op == 'ite' and depth:
        d = D.I.decide(st, n.a[0])
        if d is not None: return bounded(D, st, n.a[1] if d else n.a[2], leaf, lim, depth - 1)
        return bounded(D, ranges.gated(D.I, st, n.a[0], True), n.a[1], leaf, lim, depth - 1) or bounded(D, ranges.gated(D.I, st, n.a[0], False), n.a[2], leaf, lim, depth - 1)
    if n.op == 'cast': 
        m = unwiden(n)
        if m is not n: return bounded(D, st, m, leaf, lim, depth)
    if n.op == 'bin' and n.a[0] in ('Div', 'Shr', 'Rem', 'Sub') and depth and bounded(D, st, n.a[1], leaf, lim, depth - 1) is None and (n.a[0] != 'Sub' or ranges.nowrap(D.I, st, n.a[1], n.a[2])): return None
    if n.op == 'bin' and n.a[0] == 'Add' and depth and all(bounded(D, st, y, leaf, lim, depth - 1) is None for y in n.a[1:3]): return None
    if n.op == 'bin' and n.a[0] == 'Mul' and depth and isint(n.a[2]) and n.a[2].a[0] <= 64 and bounded(D, st, n.a[1], leaf, lim, depth - 1) is None: return None
    if n.op == 'len' and n.a[0].op == 'sym' and str(n.a[0].a[0]).startswith('a'): return None     # size of an argument
    m = unwiden(n)
    for f, v in st.pc.items():
        if not (isinstance(f, N) and f.op == 'bin' and f.a[0] in ('Le', 'Lt')): continue
        lo, hi = (f.a[1], f.a[2]) if v else (f.a[2], f.a[1])
        if (grows(lo, n) or grows(lo, m)) and monoin(hi, leaf): return None
    return show(n, 6)

CONSTCAP = 64
def H02(c):
    c.rule('every reservation a decoder can make (Vec/String with_capacity, reserve, resize, vec![x; n]) is bounded on its path by a small constant, by the cap setting (min with the loaded value) or by a test against reader.remaining() made before it')
    c.rule('memory grown element by element in a loop whose length comes from the wire grows only with an element read in the same iteration')
    c.rule('the cap is one atomic: its setter stores its argument unconditionally and unchanged, its getter returns what is loaded, both on the one static there is')
    c.assumptions += ['elements that occupy no bits (packed runs of equal values, empty structures) are data, not a reservation', 'reader.remaining() never exceeds the input (bitreader)', 'a collection grown by push at most doubles']
    F = build.load('all')
    iv, _, _ = dcfix(F)
    es = entries(F)
    nres = 0
    def run(b, level, **kw):
        nonlocal nres
        try: D = Decoder(F, b, level, **kw)
        except (Mismatch, AnalysisError) as e:
            c.violation('undecided:' + b.path, '%s: %s' % (b.path, e)); return
        if D.out is None: return
        leaf = lambda x: x in rs or caploads(x)
        rs = rems(D)
        for n, conds, loops, site in D.reserves():
            if contradictory(D, conds): continue
            d = bounded(D, D.state(conds), whole(n), leaf, CONSTCAP)
            c.check(d is None, site_key(F, site, 'reserve'), '%s line %s reserves room for %s elements before any data backs them' % (site[0], site[1], d), 'reservations', '%s: reservation of %s bounded' % (site[0], show(n, 4)))
            for L in loops:
                if L.n is not None and not isint(L.n) and not progresses(L.eff):
                    c.violation(site_key(F, site, 'reserve-loop'), '%s line %s reserves in a loop that reads nothing' % (site[0], site[1]))
        for L in loops_of(D.out.eff):
            gr = [e for e in leaves(L.eff) if e[0] == 'op' and e[1] == 'grow']
            if not gr: continue
            if L.n is not None and isint(L.n) and L.n.a[0] <= CONSTCAP: continue
            e = gr[0]
            c.check(progresses(L.eff), site_key(F, e[4], 'grow'), '%s line %s grows a collection in a loop that reads no data per iteration' % (e[4][0], e[4][1]), 'growing loops', '%s: one element read per element stored' % e[4][0])
        for p, sites in D.I.unknown.items():
            if ALLOC.search(p):
                for s in sites: c.violation(site_key(F, s, 'alloc ' + p.split('::')[-1]), '%s line %s calls %s, which allocates an amount that is not established' % (s[0], s[1], p))
        c.count('decoders')
    for b in es: run(b, 'raw', dcfacts=iv)
    G = Gen(F)
    for t, g in G.types.items():
        for n in ('zserio_read', 'zserio_read_packed'):
            b = g.fn(n)
            if b is not None: run(b, 'gen', shape=G.shape(g) if 'packed' in n else None)
    cap(c, F)
    c.floor('decoders', 300); c.floor('reservations', 20); c.floor('growing loops', 10)
ALLOC = re.compile(r'::(with_capacity\w*|try_with_capacity|reserve\w*|try_reserve\w*|resize\w*|from_elem|extend_with|repeat|repeat_n|new_uninit_slice|new_zeroed_slice|into_boxed_slice|set_len|alloc|alloc_zeroed|realloc)$')
def loops_of(eff):
    for e in flat(eff):
        if e[0] == 'if': yield from loops_of(e[2]); yield from loops_of(e[3])
        elif e[0] == 'loop': yield e[1]; yield from loops_of(e[1].eff)
def progresses(eff):
    """every iteration that completes has read something"""
    for e in flat(eff):
        if e[0] == 'op' and e[1] in ('get', 'getobj', 'getone', 'getelems'): return True
        if e[0] == 'havoc' and e[1].startswith((ATRAIT, PACK)) and e[1].split('::')[-1] in ('read', 'read_packed', 'zserio_read', 'zserio_read_packed'): return True
        if e[0] == 'if' and progresses(e[2]) and progresses(e[3]): return True
        if e[0] == 'loop' and False: return True
    return False
def cap(c, F):
    ats = [s for s in F.statics if s['crate'] in ('zserio', 'corpus') and 'Atomic' in ty_str(s['ty'])]
    c.check(len(ats) == 1, 'cap:static', 'expected one atomic setting, found %s' % [s['path'] for s in ats], 'cap obligations')
    setters = []; getters = []
    for b in F.bodies.values():
        if b.crate != 'zserio' or b.exp or b.kind == 'closure': continue
        fs = [f[0] for f, t in callees(b)]
        w = [f for f in fs if re.match(r'^core::sync::atomic::.*::(store|swap|fetch_\w+|compare_exchange\w*|compare_and_swap|get_mut|into_inner|as_ptr|from_ptr)$', f)]
        if w: setters.append((b, w))
        if any(re.match(r'^core::sync::atomic::.*::load$', f) for f in fs) and not reads(b): getters.append(b)
    c.check(len(setters) == 1, 'cap:setters', 'functions that change the setting: %s' % [b.path for b, _ in setters], 'cap obligations')
    for b, w in setters:
        if b.argc != 1 or tystr(b.locals[1]) != 'usize':
            c.violation('cap:set', '%s changes the pre-allocation cap but takes no value to set' % b.path); continue
        I, fr, outs = setup_run(F, b, Free(F, 'raw').policy, [SYM('n', 'usize')])
        s = outs.get('ret')
        ops = [e for e, cs, ls in leafconds(s.eff) if e[0] == 'op' and e[1] == 'atomic_store'] if s else []
        un = [e for e, cs, ls in leafconds(s.eff) if e[0] in ('panic', 'fail', 'havoc') or e[0] == 'op' and cs] if s else [1]
        c.check(len(ops) == 1 and whole(ops[0][2][1]) is SYM('n', 'usize') and not un and w[0].endswith('::store'), 'cap:set', '%s does not simply store its argument' % b.path, 'cap obligations', '%s stores its argument' % b.path)
    for b in getters:
        if b.argc: continue
        I, fr, outs = setup_run(F, b, Free(F, 'raw').policy, [])
        s = outs.get('ret')
        v = I.deep(s, s.env[('L', fr.fid, 0)]) if s else UNIT()
        c.check(caploads(v), 'cap:get', '%s returns %s instead of the setting' % (b.path, show(v, 4)), 'cap obligations', '%s returns the setting' % b.path)
    c.check(bool(getters), 'cap:getters', 'nothing returns the setting', 'cap obligations')
# ------------------------------------------------------------------ H04
SHARED = re.compile(r'(^|::)(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Lazy|Mutex|RwLock|ReentrantLock|Condvar|Once|Atomic\w*|LocalKey|AssertThreadSafe|Sender|Receiver|SyncSender)$')
AMBIENT = re.compile(r'^(std::(env|time|thread|process|net|os|sync|io::stdio|hash::random|collections::hash|backtrace)|core::(cell|sync)|alloc::sync|std::collections::HashMap|core::ptr|core::mem::(transmute\w*|zeroed|uninitialized|forget)|core::intrinsics|std::thread|lazy_static|once_cell|parking_lot|rand|getrandom|libc)(::|$)')
FSOK = re.compile(r'^std::fs::(File::(open|create|options|sync_all|sync_data|metadata)|OpenOptions::\w+|read|write|read_to_string|Metadata::len)(::|$)|^<std::fs::File as |^<&std::fs::File as ')
def tyadts(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'adt': out.add(t[1])
        if t and t[0] == 'other' and isinstance(t[1], str): out.add(t[1])
        for x in t: 
            if isinstance(x, tuple): tyadts(x, out)
    return out
def H04(c):
    c.rule('no unsafe code in the runtime or in generated code; no mutable or interior-mutable static, thread-local or type, except the one atomic cap')
    c.rule('no function of the runtime or of generated code calls into ambient state (environment, time, threads, processes, randomness, hash seeds, synchronisation, raw memory) or touches files other than by opening the path it is given')
    c.rule('encoding and sizing methods take the object by shared reference')
    c.rule('the cap is loaded only by decoders (or their helpers) and its value flows into reservations only: not into a condition, a result, a decoded object or a wire operation')
    c.assumptions += ['bitreader and rust-bitwriter keep no global state', 'generated types contain only types listed in their ADTs']
    F = build.load('all')
    CR = ('zserio', 'corpus')
    un = [u for cr, u in F.unsafe if cr in CR]
    c.check(not un, 'unsafe', 'unsafe code: %s' % un[:3], 'crate obligations', 'no unsafe code')
    for s in F.statics:
        if s['crate'] not in CR: continue
        ads = tyadts(s['ty'], set())
        if s.get('mut'): c.violation('static:' + s['path'], 'mutable static %s' % s['path']); continue
        bad = [a for a in ads if SHARED.search(a)]
        if bad and all(a.endswith('Atomic') or 'atomic' in a for a in bad) and tyadts(s['ty'], set()) == set(bad) and 'usize' in ty_str(s['ty']):
            c.count('settings'); continue
        c.check(not bad, 'static:' + s['path'], 'static %s of type %s is shared mutable state' % (s['path'], ty_str(s['ty'])), 'statics')
    c.check(c.counts.get('settings', 0) == 1, 'settings', '%d atomic settings found, expected the allocation cap only' % c.counts.get('settings', 0), 'crate obligations')
    for p, (t, v, sp, nm) in F.consts.items():
        if not p.startswith(('zserio::', 'corpus::', '<zserio::', '<corpus::')): continue
        bad = [a for a in tyadts(t, set()) if SHARED.search(a)]
        c.check(not bad, 'const:' + p, '%s of type %s is shared mutable state' % (p, ty_str(t)), 'constants')
    for p, a in F.adts.items():
        if a.get('crate') not in CR or not a.get('local', True): continue
        for v in a['variants']:
            for f in v['fields']:
                bad = [x for x in tyadts(f[1], set()) if SHARED.search(x)] + (['raw pointer'] if "('ptr'" in str(f[1]) else [])
                c.check(not bad, 'field:%s.%s' % (p, f[0]), 'field %s.%s of type %s can be changed through a shared reference' % (p, f[0], ty_str(f[1])), 'fields')
    setters, getters, capusers = set(), set(), set()
    calls = {}
    for b in F.bodies.values():
        if b.crate not in CR: continue
        c.count('functions')
        statref = False
        for f, t in callees(b):
            calls.setdefault(f[0], set()).add(b.path)
            c.count('calls')
            if re.match(r'^core::sync::atomic::Atomic', f[0]):
                (capusers if f[0].endswith('::load') else setters).add(b.path); continue
            if AMBIENT.match(f[0].lstrip('<')): c.violation('%s:%s' % (b.path, f[0]), '%s line %s calls %s: its result does not depend on its arguments alone' % (b.path, t[6] if len(t) > 6 else '', f[0]))
            elif f[0].lstrip('<&').startswith('std::fs') and not FSOK.match(f[0]): c.violation('%s:%s' % (b.path, f[0]), '%s calls %s: it touches files besides the one it is given' % (b.path, f[0]))
            else: c.ok('calls without ambient effects')
        for i, t in enumerate(b.locals):
            bad = [x for x in tyadts(t, set()) if SHARED.search(x)] if t is not None else []
            if bad and not (all('tomic' in x for x in bad)): c.violation('local:%s' % b.path, '%s uses %s, shared mutable state' % (b.path, ty_str(t)))
    # &self
    for im in F.impl_index.get(PACK, []):
        for n, p in im['items'].items():
            b = F.bodies.get(p)
            if b is None or n not in ('zserio_write', 'zserio_write_packed', 'zserio_bitsize', 'zserio_bitsize_packed', 'zserio_init_packing_context'): continue
            t = b.locals[1]
            c.check(t[0] == 'ref' and not t[1], 'self:' + p, '%s can change the object it encodes' % p, 'encoding methods')
    # where the cap goes
    up = set(capusers); q = list(capusers)
    while q:
        x = q.pop()
        b = F.bodies[x]
        if reads(b) or x.startswith('corpus') or b.kind == 'closure' and False: continue
        for y in calls.get(x, ()):
            if y not in up: up.add(y); q.append(y)
    for x in sorted(up):
        b = F.bodies[x]
        if reads(b): c.ok('users of the cap', 1, x); continue
        if b.argc == 0 and b.pub and x in capusers: c.ok('users of the cap', 1, x); continue
        if calls.get(x) and calls[x] <= up: c.ok('users of the cap', 1, x); continue
        if b.kind == 'closure': c.ok('users of the cap'); continue
        c.violation('cap:' + x, '%s is not a decoder but depends on the allocation cap' % x)
    iv, _, _ = dcfix(F)
    def run(b, level, **kw):
        try: D = Decoder(F, b, level, **kw)
        except (Mismatch, AnalysisError) as e: c.violation('undecided:' + b.path, '%s: %s' % (b.path, e)); return
        if D.out is None: return
        bad = capflow(D)
        c.check(bad is None, 'capflow:' + b.path, '%s: %s' % (b.path, bad), 'decoders')
    for b in entries(F): run(b, 'raw', dcfacts=iv)
    G = Gen(F)
    for t, g in G.types.items():
        for n in ('zserio_read', 'zserio_read_packed'):
            b = g.fn(n)
            if b is not None: run(b, 'gen', shape=G.shape(g) if 'packed' in n else None)
    c.floor('decoders', 300); c.floor('encoding methods', 500); c.floor('calls without ambient effects', 5000); c.floor('users of the cap', 3)
def capflow(D):
    memo = {}
    def has(x):
        if not isinstance(x, N): return any(has(y) for y in x) if isinstance(x, (tuple, list)) else False
        r = memo.get(x)
        if r is None: r = memo[x] = any(caploads(y) for y in walk(x))
        return r
    for e, conds, loops in leafconds(D.out.eff):
        if e[0] == 'op' and e[1] == 'reserve':
            continue
        if has(e[1]) if e[0] in ('fail', 'panic', 'panicpath') else has(e[2]): return 'the allocation cap reaches %s (line %s)' % ('a failure condition' if e[0] != 'op' else 'a wire operation', e[-1][1] if isinstance(e[-1], tuple) and len(e[-1]) > 1 else '')
        if any(has(k) for k, v in conds) and e[0] in ('op', 'fail', 'panic'): return 'what is read depends on the allocation cap'
        if any(L.n is not None and has(L.n) for L in loops): return 'a loop runs as often as the allocation cap says'
    for k, v in list(D.out.env.items()):
        if k[0] in ('P', 'L') and has(D.I.deep(D.out, v)) and (k[0] == 'P' or k[2] == 0): return 'a decoded value depends on the allocation cap'
    return None
CHECKS = {'H01': H01, 'H02': H02, 'H04': H04}
