"""Runs over generated types: writer streams, mirrored readers, parameters, packing shapes, sizes."""
from .wire import *
from .replay import *
from . import wire as W
# symbolic objects are per type: nodes are shared, their scalar types are not
def OBJ(g): return SYM('obj@' + g.path)
def ROBJ(g): return SYM('robj@' + g.path)
def SELF(g): return mk('deref', OBJ(g))
def RSELF(g): return mk('deref', ROBJ(g))

def pretype(F, root, ty, depth=5):
    """attach scalar types to the projections of a symbolic object"""
    if root.ty is None and tystr(ty): root.ty = tystr(ty)
    if depth == 0 or ty is None: return
    if ty[0] == 'adt':
        if ty[1] == OPTION: pretype(F, PROJ(root, ('f', 1, 0)), ty[2][0], depth - 1); return
        a = F.adts.get(ty[1])
        if a and a['kind'] == 'struct' and not ty[1].startswith(('alloc::', 'std::', 'core::')):
            for i, f in enumerate(a['variants'][0]['fields']): pretype(F, PROJ(root, ('f', None, i)), f[1], depth - 1)

class GenType:
    def __init__(self, F, ty, path):
        self.F, self.ty, self.path = F, ty, path
        self.adt = F.adts[path]
        self.name = path.replace('corpus::', '')
        self._m = {}
    def fn(self, n):
        for im in self.F.impl_index.get(PACK, ()):
            if im['self'] == self.ty and n in im['items']: return self.F.bodies.get(im['items'][n])
        return None

class Gen:
    def __init__(self, F):
        self.F = F
        self.types = {}
        self.F = F
        for im in F.impl_index.get(PACK, ()):
            t = im['self']
            if t[0] == 'adt' and im['crate'] == 'corpus': self.types[t] = GenType(F, t, t[1])
        self._params = {}
        self._writer = {}
        self._shape = {}
    # ---- packing context shape
    def shape(self, g):
        """value of a PackingContextNode after zserio_create_packing_context"""
        if g.path in self._shape: return self._shape[g.path]
        w = Wire(self.F, 'gen', 'create')
        n0 = mk('adt', 'zserio::ztype::array_traits::packing_context_node::PackingContextNode', 0, mk('vecnew'), NONE())
        I, fr, outs = setup_run(self.F, g.fn('zserio_create_packing_context'), w.policy, [SYM('ctx')], {('P', SYM('ctx')): n0})
        s = outs.get('ret')
        if s is None: raise AnalysisError('zserio_create_packing_context does not return')
        v = I.deep(s, s.env[('P', SYM('ctx'))])
        self._shape[g.path] = v
        return v
    # ---- parameters: fields the decoder does not produce
    def params(self, Ts):
        g = self.types.get(Ts)
        if g is None: return ()
        if g.path in self._params: return self._params[g.path]
        self._params[g.path] = ()
        if g.adt['kind'] != 'struct': return ()
        w = Free(self.F, 'gen')
        try:
            I, fr, outs = setup_run(self.F, g.fn('zserio_read'), w.policy, [OBJ(g), SYM('reader')])
        except (AnalysisError, Mismatch): return ()
        s = outs.get('ret')
        if s is None: return ()
        fin = s.env.get(('P', OBJ(g)), SELF(g))
        nf = len(g.adt['variants'][0]['fields'])
        r = tuple(i for i in range(nf) if PROJ(fin, ('f', None, i)) is PROJ(SELF(g), ('f', None, i)))
        self._params[g.path] = r
        return r
    # ---- writer
    def writer(self, g, packed):
        k = (g.path, packed)
        if k in self._writer: return self._writer[k]
        w = Wire(self.F, 'gen', 'write')
        pretype(self.F, SELF(g), g.ty); pretype(self.F, RSELF(g), g.ty)
        env = {}
        args = [OBJ(g), SYM('writer')]
        if packed:
            env[('P', SYM('ctx'))] = self.shape(g); args = [OBJ(g), SYM('ctx'), SYM('writer')]
        dec = Reader(self.F, 'gen')
        I = Interp(self.F, policy=w.policy); dec.I = I
        I, fr, outs = setup_run(self.F, g.fn('zserio_write_packed' if packed else 'zserio_write'), w.policy, args, env, dec.decide, I)
        s = outs.get('ret')
        if s is None: raise AnalysisError('encoder never returns')
        st = stream(s.eff, SNIL())
        w.stream = st; w.eff = s.eff; w.I = I; w.facts = topfacts(s.eff); w.state = s
        self._writer[k] = w
        return w
    # ---- mirrored reader
    def mirror(self, g, packed, pops=None):
        """-> Reader with .viol, .final; runs zserio_read(_packed) against the writer's stream"""
        pretype(self.F, SELF(g), g.ty); pretype(self.F, RSELF(g), g.ty)
        w = self.writer(g, packed)
        r = Reader(self.F, 'gen', forall=[f for f in w.facts if f.op == 'forall'], params_of=self.params)
        r.bodies = []; r.paramstates = []; r.path = g.fn('zserio_read_packed' if packed else 'zserio_read').path
        I = MInterp(self.F, policy=r.policy); I.rd = r; r.I = I
        ps = self.params(g.ty)
        pre = RSELF(g)
        for p in ps: pre = WITH(pre, ('f', None, p), PROJ(SELF(g), ('f', None, p)))
        env = {('P', ROBJ(g)): pre, X: w.stream, XK: INT(0, 'usize')}
        args = [ROBJ(g), SYM('reader')]
        if packed:
            env[('P', SYM('ctx'))] = self.shape(g); args = [ROBJ(g), SYM('ctx'), SYM('reader')]
        I.decide_hook = r.decide
        st = State(); body = g.fn('zserio_read_packed' if packed else 'zserio_read')
        fr = I.new_frame(body, {}, 0)
        for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
        st.env.update(env)
        for f in w.facts:
            if f.op != 'forall': I.assume(st, f, True)
        r.pc0 = dict(st.pc)
        outs = I.run(fr, 0, {}, st)
        s = outs.get('ret')
        r.ok = s is not None
        r.state = s
        if s is None:
            r.bad('noret', '%s never succeeds on encoded data' % body.path); return r
        rest = r.head(s)
        r.w = w
        if not ended(r, s, rest): r.bad('rest', '%s returns although the encoder wrote more: %s' % (body.path, heads(rest)))
        # decoder-side rejections and aborts that the encoder does not exclude; element positions; parameters
        for e, conds, loops in leafconds(s.eff):
            k = e[0]
            if not (k in ('fail', 'panic') and not opaque_fail(e[1]) or k == 'op' and e[1] in ('same', 'param')): continue
            s2 = State(s.env, [], dict(r.pc0))
            dead = False
            for f in r.forall:
                n, lam = f.a
                if isint(n) and n.a[0] <= 64:
                    for j in range(n.a[0]): I.assume(s2, subst(lam.a[1], {lam.a[0]: INT(j, lam.a[0].ty)}), True)
                for L in loops:
                    if L.n is not None and L.i is not None and r.eqv(s2, L.n, tocast(n, L.n.ty), [200]):
                        I.assume(s2, subst(lam.a[1], {lam.a[0]: tocast(L.i, lam.a[0].ty)}), True)
            for c, v in conds:
                d = I.decide(s2, c)
                if d is not None and d != v: dead = True; break
                I.assume(s2, c, v)
            if dead: continue
            if k == 'op':
                x, y = e[2][:2]
                if e[1] == 'param': r.paramstates.append((s2, x, y, e[3][0], e[3][1], e[3][2]))
                if x is y or r.eqv(s2, x, y, [2000]):
                    if e[1] == 'param': r.paramobl.append((e[3][0], e[3][1], e[3][2], True, x, y))
                elif e[1] == 'same': r.bad('index', '%s line %s: element index argument %s is not the position %s' % (e[4][0], e[4][1], show(x, 4), show(y, 4)))
                else: r.paramobl.append((e[3][0], e[3][1], e[3][2], False, x, y))
                continue
            if I.decide(s2, e[1]) is False or infeasible(r, s2, e[1]): continue
            writer_ran(w, I, s2)
            if I.decide(s2, e[1]) is not False and not infeasible(r, s2, e[1]):
                site = e[3] if k == 'panic' else e[2]
                r.bad(k + ':' + str(e[2] if k == 'panic' else 'reject'), '%s line %s: encoded data can be rejected (%s when %s)' % (site[0], site[1], k, show(e[1], 6)))
        return r

def writer_ran(w, I, st):
    """assume the encoder got past its own checks on the paths st takes"""
    if getattr(w, 'implied', None) is None:
        w.implied = [(tuple(conds), e[1]) for e, conds, loops in leafconds(w.eff) if e[0] in ('fail', 'panic') and not loops and e[1].op != 'int' and not opaque_fail(e[1])]
    todo = w.implied; ch = True
    while ch and todo:
        ch = False; rest = []
        for conds, f in todo:
            if all(I.decide(st, c) is v for c, v in conds):
                if I.decide(st, f) is None: I.assume(st, f, False); ch = True
            else: rest.append((conds, f))
        todo = rest

def size_run(G, g, packed):
    w = Wire(G.F, 'gen', 'size')
    dec = Reader(G.F, 'gen')
    I = Interp(G.F, policy=w.policy); dec.I = I; I.decide_hook = dec.decide
    pretype(G.F, SELF(g), g.ty)
    ww = G.writer(g, packed)
    st = State()
    body = g.fn('zserio_bitsize_packed' if packed else 'zserio_bitsize')
    fr = I.new_frame(body, {}, 0)
    pos = SYM('pos', 'u64')
    args = [OBJ(g), pos]
    if packed: st.env[('P', SYM('ctx'))] = G.shape(g); args = [OBJ(g), SYM('ctx'), pos]
    for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
    for f in ww.facts:
        if f.op != 'forall': I.assume(st, f, True)
    outs = I.run(fr, 0, {}, st)
    s = outs.get('ret')
    if s is None: raise AnalysisError('%s never returns' % body.path)
    ret = I.deep(s, s.env[('L', fr.fid, 0)])
    if ret.op == 'res': val = ret.a[1]
    elif ret.op == 'adt' and ret.a[0] == RESULT and ret.a[1] == 0: val = ret.a[2]
    else: val = PROJ(ret, ('f', 0, 0))
    st0 = State({}, [], {})
    for f in ww.facts:
        if f.op != 'forall': I.assume(st0, f, True)
    end = written(ww.eff, pos)
    w.I = I
    return w, dec, st0, val, BIN('Sub', end, pos, 'u64'), s

# ------------------------------------------------------------------ packing contexts
def ctx_filter(s, path):
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'sop':
            t = go(x.a[2]); k = x.a[0].a
            r = SOP(x.a[0], x.a[1], t) if k[0] == 'ctx' and k[1] == path or k[0] == 'objp' and k[2] == path else t
        elif x.op == 'ite':
            a, b = go(x.a[1]), go(x.a[2]); r = a if a is b else ITE(x.a[0], a, b)
        elif x.op == 'sfact': r = go(x.a[1])
        elif x.op == 'sloop':
            b = go(x.a[1].a[1])
            r = go(x.a[2]) if b.op == 'sback' else SLOOP(x.a[0], mk('lam', x.a[1].a[0], b), go(x.a[2]))
        else: r = x
        memo[x] = r
        return r
    return go(s)
def ctx_paths(s):
    out = {}
    for x in stream_ops(s):
        k = x.a[0].a
        if k[0] == 'ctx': out[k[1]] = 'ctx'
        if k[0] == 'objp': out[k[2]] = 'objp'
    return out
def stream_equal(rd, st, a, b, budget):
    budget[0] -= 1
    if budget[0] < 0: return 'undecided within the case budget'
    while True:
        if a is b: return None
        if a.op == 'sfact': a = a.a[1]; continue
        if b.op == 'sfact': b = b.a[1]; continue
        for x in (a, b):
            if x.op == 'ite':
                c = gatecond(rd, st, x.a[0])
                if c is not None:
                    s1 = State(st.env, [], dict(st.pc)); rd.I.assume(s1, c, True)
                    s2 = State(st.env, [], dict(st.pc)); rd.I.assume(s2, c, False)
                    return stream_equal(rd, s1, a, b, budget) or stream_equal(rd, s2, a, b, budget)
        n = False
        if a.op == 'ite': a = a.a[1] if rd.I.decide(st, a.a[0]) else a.a[2]; n = True
        if b.op == 'ite': b = b.a[1] if rd.I.decide(st, b.a[0]) else b.a[2]; n = True
        if n: continue
        if a.op in ('sdead',) or b.op in ('sdead',): return None
        if a.op != b.op: return '%s against %s' % (heads(a), heads(b))
        if a.op == 'sop':
            if not (a.a[0] is b.a[0] or rd.eqv(st, a.a[0], b.a[0], [200])) or not rd.eqv(st, a.a[1], b.a[1], [400]):
                return '%s(%s) against %s(%s)' % (kshow(a.a[0].a), show(a.a[1], 5), kshow(b.a[0].a), show(b.a[1], 5))
            a, b = a.a[2], b.a[2]; continue
        return None if a.op in ('snil', 'sback') else 'cannot compare %s' % a.op
def init_run(G, g):
    w = Wire(G.F, 'gen', 'init')
    dec = Reader(G.F, 'gen')
    I = Interp(G.F, policy=w.policy); dec.I = I
    pretype(G.F, SELF(g), g.ty)
    I, fr, outs = setup_run(G.F, g.fn('zserio_init_packing_context'), w.policy, [OBJ(g), SYM('ctx')], {('P', SYM('ctx')): G.shape(g)}, dec.decide, I)
    s = outs.get('ret')
    if s is None: raise AnalysisError('zserio_init_packing_context never returns')
    w.stream = stream(s.eff, SNIL()); w.I = I; w.rd = dec; w.eff = s.eff
    return w

def infeasible(r, st, c):
    """c contradicts the facts after splitting its gates"""
    if c.op == 'ite':
        x = c.a[0]
        d = r.I.decide(st, x)
        if d is not None: return infeasible(r, st, c.a[1] if d else c.a[2])
        s1 = State(st.env, [], dict(st.pc)); r.I.assume(s1, x, True)
        s2 = State(st.env, [], dict(st.pc)); r.I.assume(s2, x, False)
        return infeasible(r, s1, c.a[1]) and infeasible(r, s2, c.a[2])
    if c.op == 'not' and c.a[0].op == 'ite': return infeasible(r, st, ITE(c.a[0].a[0], NOT(c.a[0].a[1]), NOT(c.a[0].a[2])))
    return r.I.decide(st, c) is False

def topfacts(eff):
    out = []
    for e in flat(eff):
        if e[0] in ('fail', 'panic') and e[1].op != 'int' and not opaque_fail(e[1]): out.append(NOT(e[1]))
        elif e[0] == 'op' and e[1] == 'fact': out.append(e[2][0])
        elif e[0] == 'loop' and e[1].n is not None and e[1].i is not None:
            for f in assertloop(e[1]) or []:
                if f.op != 'int' and not opaque_fail(f): out.append(mk('forall', e[1].n, mk('lam', e[1].i, f), ty='bool'))
    return out
def leaves(eff):
    for e in flat(eff):
        if e[0] == 'if':
            yield from leaves(e[2]); yield from leaves(e[3])
        elif e[0] == 'loop': yield from leaves(e[1].eff)
        else: yield e
def leafconds(eff, conds=(), loops=()):
    cs = list(conds)
    for e in flat(eff):
        if e[0] == 'if':
            yield from leafconds(e[2], cs + [(e[1], True)], loops); yield from leafconds(e[3], cs + [(e[1], False)], loops)
        elif e[0] == 'loop':
            L = e[1]
            c2 = cs + ([(BIN('Le', L.n, tocast(L.i, L.n.ty), 'bool'), False)] if L.n is not None and L.i is not None else [])
            yield from leafconds(L.eff, c2, loops + (L,))
        elif e[0] == 'guard': cs.append((e[1], e[2]))
        else:
            yield e, list(cs), loops
            if e[0] in ('fail', 'panic'): cs.append((e[1], False))
def finals(G, g, r, w):
    """fields of the decoded object that are not the encoder's; a field nothing on the wire depends on may keep its old value"""
    out = []
    fin = r.state.env[('P', ROBJ(g))]
    st = State(r.state.env, [], dict(r.pc0))
    if g.adt['kind'] != 'struct':
        return [] if r.eqv(st, fin, SELF(g), [2000]) else [('value', show(fin, 6))]
    for i, f in enumerate(g.adt['variants'][0]['fields']):
        a, b = PROJ(fin, ('f', None, i)), PROJ(SELF(g), ('f', None, i))
        if not same_or_absent(r, st, a, b, PROJ(RSELF(g), ('f', None, i)), w.stream, [3000], w): out.append((f[0], show(a, 7)))
    return out
def same_or_absent(r, st, a, b, old, stream, budget, w):
    budget[0] -= 1
    if budget[0] < 0: return False
    a = r.canon(st, a)
    if a.op == 'ite' and any(x is old for x in walk(a)):
        c = gatecond(r, st, a.a[0])
        if c is not None:
            s1 = State(st.env, [], dict(st.pc)); r.I.assume(s1, c, True)
            s2 = State(st.env, [], dict(st.pc)); r.I.assume(s2, c, False)
            return same_or_absent(r, s1, a, b, old, stream, budget, w) and same_or_absent(r, s2, a, b, old, stream, budget, w)
    if a is old: return not depends(r, st, stream, b)
    if r.eqv(st, a, b, budget): return True
    s1 = State(st.env, [], dict(st.pc)); writer_ran(w, r.I, s1)
    if len(s1.pc) != len(st.pc) and r.eqv(s1, a, b, [3000]): return True
    # what the encoder checked may hold on one side of the gate only
    if a.op == 'ite':
        c = gatecond(r, s1, a.a[0])
        if c is not None:
            for v in (True, False):
                s2 = State(st.env, [], dict(s1.pc)); r.I.assume(s2, c, v)
                if not same_or_absent(r, s2, a, b, old, stream, budget, w): return False
            return True
    return False
def gatecond(r, st, c):
    while c.op in ('ite', 'not'):
        if c.op == 'not': c = c.a[0]; continue
        d = r.I.decide(st, c.a[0])
        if d is None: c = c.a[0]
        else: c = c.a[1] if d else c.a[2]
    return None if c.op == 'int' or r.I.decide(st, c) is not None else c
def depends(r, st, s, x, lim=400):
    """does anything in the stream depend on x under the facts of st?"""
    has = lambda t: any(y is x for y in walk(t))
    if not has(s): return False
    while True:
        if s.op == 'sfact': s = s.a[1]; continue
        if s.op == 'ite':
            d = r.I.decide(st, s.a[0])
            if has(s.a[0]): return True
            if d is not None: s = s.a[1] if d else s.a[2]; continue
            s1 = State(st.env, [], dict(st.pc)); r.I.assume(s1, s.a[0], True)
            s2 = State(st.env, [], dict(st.pc)); r.I.assume(s2, s.a[0], False)
            return depends(r, s1, s.a[1], x) or depends(r, s2, s.a[2], x)
        if s.op == 'sop':
            if has(s.a[0]) or has(s.a[1]): return True
            s = s.a[2]; continue
        if s.op == 'sloop':
            if has(s.a[0]) or depends(r, st, s.a[1].a[1], x): return True
            s = s.a[2]; continue
        return False
def ended(r, st, s):
    if s.op == 'snil' or s.op == 'sdead': return True
    if s.op == 'sfact': return ended(r, st, s.a[1])
    if s.op == 'ite':
        d = r.I.decide(st, s.a[0])
        if d is not None: return ended(r, st, s.a[1] if d else s.a[2])
        s1 = State(dict(st.env), [], dict(st.pc)); r.I.assume(s1, s.a[0], True)
        s2 = State(dict(st.env), [], dict(st.pc)); r.I.assume(s2, s.a[0], False)
        return ended(r, s1, s.a[1]) and ended(r, s2, s.a[2])
    if s.op in ('sop', 'sloop', 'sbody'):
        st = State(dict(st.env), [], dict(st.pc)); writer_ran(r.w, r.I, st)
        try: p = r.partial(st, s, st.env.get(XK), None)
        except Mismatch: return False
        if p is not None:
            st2 = State(dict(st.env), [], dict(st.pc)); st2.env[XK] = INT(0, 'usize')
            return ended(r, st2, p[0])
    return False
def heads(s, d=3):
    if d == 0: return '…'
    if s.op == 'sop': return kshow(s.a[0].a)
    if s.op == 'ite': return '%s ? %s : %s' % (show(s.a[0], 4), heads(s.a[1], d - 1), heads(s.a[2], d - 1))
    if s.op == 'sfact': return heads(s.a[1], d)
    return s.op

def stream_ops(s, seen=None):
    """all operations of a stream term"""
    st = [s]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'sop': yield x; st.append(x.a[2])
        elif x.op == 'ite': st += [x.a[1], x.a[2]]
        elif x.op == 'sfact': st.append(x.a[1])
        elif x.op in ('sloop', 'sbody'): st += [x.a[1].a[1], x.a[2]]

# ------------------------------------------------------------------ sizes
POSAPPS = {'pad': 1, 'alignto': 1, 'objsize': 3, 'objpsize': 4, 'elemsize': 4, 'elsize': 3, 'elpsize': 4}
class Lin:
    """integer linear form over canonical atoms; gated parts are ite atoms with their common part hoisted"""
    def __init__(self, rd, st): self.rd, self.st, self.memo = rd, st, {}
    def lin(self, t):
        k = self.memo.get(t)
        if k is None: k = self.memo[t] = self._lin(t)
        return k
    def _lin(self, t):
        if isint(t): return {None: t.a[0]} if t.a[0] else {}
        if t.op == 'linf': return dict(t.a[0])
        if t.op == 'dm': return addl(addl({}, self.lin(t.a[0]), 8), {None: t.a[1]} if t.a[1] else {}, 1)
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
            return addl(self.lin(t.a[1]), self.lin(t.a[2]), 1 if t.a[0] == 'Add' else -1)
        if t.op == 'bin' and t.a[0] == 'Mul' and isint(t.a[2]):
            return {k: v * t.a[2].a[0] for k, v in self.lin(t.a[1]).items()}
        if t.op == 'cast' and t.ty in WIDTH and t.a[0].ty in WIDTH and T.rng(t.ty)[0] <= T.rng(t.a[0].ty)[0] and T.rng(t.a[0].ty)[1] <= T.rng(t.ty)[1]:
            return self.lin(t.a[0])
        if t.op == 'cast' and t.ty in WIDTH and t.a[0].op in ('app', 'linf') : return self.lin(t.a[0])
        if t.op == 'ite':
            d = self.rd.I.decide(self.st, t.a[0])
            if d is not None: return self.lin(t.a[1] if d else t.a[2])
            return self.gate(t.a[0], self.lin(t.a[1]), self.lin(t.a[2]))
        if t.op == 'bin' and t.a[0] == 'Mul': return {mk('prod', *sorted((linf(self.lin(t.a[1])), linf(self.lin(t.a[2]))), key=lambda n: n.id)): 1}
        if t.op == 'iter':
            n, i, P, nx, d, init = t.a
            b = addl(self.lin(nx), {P: 1}, -1); I = self.lin(init)
            if not any(P is y for k in b if k is not None for y in walk(k)):
                if not any(i is y for k in b if k is not None for y in walk(k)):
                    nl = self.lin(n)
                    for k, v in b.items():
                        if k is None: I = addl(I, nl, v)
                        else: I = addl(I, {mk('prod', *sorted((linf({k: 1}), linf(nl)), key=lambda n: n.id)): v}, 1)
                    return I
                return addl(I, {mk('sum', linf(self.lin(n)), i, linf(b), d): 1}, 1)
            return {mk('iter', linf(self.lin(n)), i, P, linf(self.lin(nx)), d, linf(I)): 1}
        if t.op == 'app' and t.a[0] == 'elsize' and self.rd.I.decide(self.st, mk('app', 'constsize', t.a[1], ty='bool')) is True: return {mk('app', 'constelsize', t.a[1], ty='u64'): 1}
        if t.op == 'app' and t.a[0] == 'alignto':
            p = linf(self.lin(t.a[1]))
            return addl(dict(p.a[0]), {mk('app', 'pad', p, t.a[2]): 1}, 1)
        if t.op == 'app' and t.a[0] in POSAPPS:
            i = POSAPPS[t.a[0]]
            a = list(t.a); a[i] = linf(self.lin(a[i]))
            return {mk('app', *a): 1}
        return {t: 1}
    def gate(self, c, a, b):
        com = {k: v for k, v in a.items() if b.get(k) == v}
        ra = {k: v for k, v in a.items() if k not in com}; rb = {k: v for k, v in b.items() if k not in com}
        if not ra and not rb: return com
        if None in ra and None in rb:      # hoist the smaller constant
            m = rb[None]; com = addl(com, {None: m}, 1); ra = addl(ra, {None: m}, -1); rb.pop(None)
        return addl(com, {mk('gate', c, linf(ra), linf(rb)): 1}, 1)
def linf(d):
    return mk('linf', tuple(sorted(d.items(), key=lambda kv: -1 if kv[0] is None else kv[0].id)), ty='u64')
def addl(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0: del r[k]
    return r
def written(eff, P):
    """position after the writer's operations, as a term"""
    for e in flat(eff):
        k = e[0]
        if k == 'op' and e[1] == 'put': 
            kd, v = e[2][0].a, e[2][1]
            P = BIN('Add', P, opsize(kd, v, P), 'u64') if kd[0] != 'align' else BIN('Add', P, mk('app', 'pad', P, kd[1], ty='u64'), 'u64')
        elif k == 'if': P = ITE(e[1], written(e[2], P), written(e[3], P))
        elif k == 'loop':
            L = e[1]
            if assertloop(L) is None:
                if L.n is None or L.i is None: raise AnalysisError('loop at %s writes' % (L.site,))
                Q = mk('phi', 'pos', L.id, ty='u64')
                P = ITER(L.n, L.i, Q, written(L.eff, Q), P)
        elif k == 'havoc': raise AnalysisError('unknown call %s may write' % (e[1],))
    return P
def opsize(kd, v, P):
    k = kd[0]
    if k in ('u', 'i'): return kd[1]
    if k == 'bool': return INT(1, 'u64')
    if k in ('float16', 'float32', 'float64'): return INT(int(k[5:]), 'u64')
    if k == 'skip': return tocast(kd[1], 'u64')
    if k in SC: return mk('app', 'size', k, v, ty='u8')
    if k in ('string', 'bytes', 'extern'): return mk('app', 'size', k, v, ty='u64')
    if k == 'obj': return mk('app', 'objsize', str(kd[1]), v, P, ty='u64')
    if k == 'objp': return mk('app', 'objpsize', str(kd[1]), kd[2], v, P, ty='u64')
    if k == 'ctx': return mk('app', 'ctxsize', kd[1], kd[2], v, ty='u64')
    if k == 'elem': return mk('app', 'elsize', kd[1], v, P, ty='u64')
    if k == 'elemp': return mk('app', 'elpsize', kd[1], kd[2], v, P, ty='u64')
    if k == 'alen': return mk('app', 'size', 'alen', v, ty='u64')
    if k == 'elems': return mk('app', 'elemsize', kd[1], kd[2], v, P, ty='u64')
    raise AnalysisError('no size rule for %s' % k)

def gates_of(d):
    for k in d:
        if k is not None:
            for x in walk(k):
                if x.op in ('gate', 'ite'): yield x.a[0]
def size_equal(rd, st, a, b, budget):
    """a, b: terms; -> None when equal, else a description"""
    budget[0] -= 1
    if budget[0] < 0: return 'undecided within the case budget'
    L = Lin(rd, st)
    d = addl(L.lin(a), L.lin(b), -1)
    if not d: return None
    for c in gates_of(d):
        c = gatecond(rd, st, c)
        if c is not None:
            s1 = State(st.env, [], dict(st.pc)); rd.I.assume(s1, c, True)
            s2 = State(st.env, [], dict(st.pc)); rd.I.assume(s2, c, False)
            return size_equal(rd, s1, a, b, budget) or size_equal(rd, s2, a, b, budget)
    # pair remaining atoms modulo facts
    pos = [k for k, v in d.items() if v == 1 and k is not None]; neg = [k for k, v in d.items() if v == -1 and k is not None]
    if len(pos) == len(neg) and len(pos) + len(neg) == len(d):
        for x in pos:
            for y in neg:
                if rd.eqv(st, unlin(x), unlin(y), [300]): neg.remove(y); break
            else: break
        else: return None
    return 'written - sized = ' + ' '.join('%+d%s' % (v, '' if k is None else '*' + show(k, 5)) for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))[:6])
def unlin(x): return x
