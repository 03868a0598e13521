"""Abstract interpreter over MIR: value numbering with gated merges, effect trees, loop summaries.

A run analyses one function (callees inlined or treated as primitives) for ALL inputs at once: states are merged at
post-dominators into gated (ite) terms, loops are summarised by their phi equations (or unrolled when their trip
count is a constant).  There is no path enumeration and no solver."""
from .facts import succs, subst_ty, unify_ty, ty_str
from .terms import *
from . import terms as T, ranges

class NeedSummary(Exception):
    def __init__(self, key): self.key = key
class AnalysisError(Exception): pass

VEXIT = -1
FAILCUT = True

class CFG:
    """Live control flow of a body: unwinding ignored, diverging and error-return blocks identified."""
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [succs(b[1]) for b in body.blocks]
        blocks = body.blocks
        # outcomes of the return place from the start of each block: subset of {'E','O','U'}; empty = diverges
        W = [set() for _ in range(n)]
        def writes0(i):
            st, t, _ = blocks[i]
            w = None
            for s in st:
                if s[0] == '=' and s[1][0] == 0:
                    if s[1][1] == ():
                        r = s[2]
                        w = 'E' if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == RESULT and r[1][2] == 1 else 'O'
                    else: w = 'O'
                elif s[0] == 'setd' and s[1][0] == 0: w = 'O'
            if t[0] == 'call' and t[3][0] == 0:
                f = t[1]
                w = 'E' if f[0] == 'fn' and f[1]['name'] == 'from_residual' else 'O'
            return w
        wr = [writes0(i) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                t = blocks[i][1]
                o = set()
                if t[0] == 'return': o.add('U')
                for s in self.succ[i]: o |= W[s]
                if wr[i] and 'U' in o:
                    o.discard('U'); o.add(wr[i])
                if o != W[i]: W[i] = o; ch = True
        self.out = W
        self.fail = [o == {'E'} for o in W]
        self.dead = [not o for o in W]
        entry_fail = self.fail[0]
        if entry_fail: self.fail = [False] * n
        self.live = [[s for s in self.succ[i] if not self.fail[s] and not self.dead[s]] for i in range(n)]
        self.n = n
        # reachable
        seen = {0}; st = [0]; order = []
        # reverse postorder
        vis = set()
        def dfs(u):
            stack = [(u, iter(self.live[u]))]
            vis.add(u)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in vis:
                        vis.add(y); stack.append((y, iter(self.live[y]))); break
                else:
                    order.append(x); stack.pop()
        dfs(0)
        self.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.live[b]: preds[s].append(b)
        self.preds = preds
        # dominators
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in dom:
                        new = p if new is None else self._inter(dom, idx, p, new)
                if new is not None and dom.get(b) != new: dom[b] = new; ch = True
        self.dom = dom
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = dom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.live[b]:
                if dominates(s, b):
                    blk = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in blk: continue
                        blk.add(x)
                        st.extend(preds[x])
        self.ipdom = self._pdom(lambda b: self.live[b])
        self._cut = {}
        self._live_in = None
        self.body = body
    def _inter(self, dom, idx, a, b):
        while a != b:
            while idx[a] > idx[b]: a = dom[a]
            while idx[b] > idx[a]: b = dom[b]
        return a
    def _pdom(self, live):
        """immediate post-dominators towards VEXIT"""
        nodes = self.rpo
        succ = {}
        for b in nodes:
            s = list(live(b))
            if not s: s = [VEXIT]
            succ[b] = s
        # order: reverse of rpo on reversed graph - iterate to a fixpoint with sets (functions are small)
        pd = {b: None for b in nodes}
        pd[VEXIT] = {VEXIT}
        full = None
        order = nodes[::-1]
        sets = {b: None for b in nodes}; sets[VEXIT] = frozenset([VEXIT])
        ch = True
        while ch:
            ch = False
            for b in order:
                acc = None
                for s in succ[b]:
                    if sets.get(s) is None: continue
                    acc = sets[s] if acc is None else acc & sets[s]
                if acc is None: continue
                new = acc | {b}
                if new != sets[b]: sets[b] = new; ch = True
        ip = {}
        for b in nodes:
            if sets[b] is None: ip[b] = VEXIT; continue
            cand = sets[b] - {b}
            # immediate: the one post-dominated by all the others -> largest set
            best = max(cand, key=lambda x: len(sets[x]) if sets.get(x) is not None else 0) if cand else VEXIT
            ip[b] = best
        return ip
    def cut_ipdom(self, h):
        """post-dominators inside loop h with back edges and exits leading to VEXIT"""
        if h not in self._cut:
            blk = self.loops[h]
            def live(b):
                if b not in blk: return []
                r = [s for s in self.live[b] if s in blk and s != h]
                ex = [s for s in self.live[b] if s not in blk or s == h]
                return r + ([VEXIT] if ex else [])
            self._cut[h] = self._pdom(live)
        return self._cut[h]
    def loop_exit(self, h):
        blk = self.loops[h]
        b = h
        seen = set()
        while b in blk:
            b = self.ipdom.get(b, VEXIT)
            if b == VEXIT or b in seen: return VEXIT
            seen.add(b)
        return b
    def live_in(self):
        """locals live at block entry"""
        if self._live_in is not None: return self._live_in
        blocks = self.body.blocks
        use = []; de = []
        def placeuse(p, u, d, is_def):
            l, pr = p
            for e in pr:
                if isinstance(e, tuple) and e[0] == 'i' and e[1] not in d: u.add(e[1])
            if is_def and not pr: d.add(l)
            elif l not in d: u.add(l)
        def opuse(o, u, d):
            if o[0] in ('cp', 'mv'): placeuse(o[1], u, d, False)
        for st, t, _ in blocks:
            u, d = set(), set()
            for s in st:
                if s[0] == '=':
                    r = s[2]
                    for x in r[1:]:
                        if isinstance(x, tuple):
                            if x and x[0] in ('cp', 'mv'): opuse(x, u, d)
                            elif r[0] == 'agg' and x is r[2]:
                                for y in x: opuse(y, u, d)
                    if r[0] in ('ref',): placeuse(r[2], u, d, False)
                    if r[0] == 'discr': placeuse(r[1], u, d, False)
                    placeuse(s[1], u, d, True)
                elif s[0] == 'setd': placeuse(s[1], u, d, False)
            if t[0] == 'switch': opuse(t[1], u, d)
            elif t[0] == 'call':
                opuse(t[1], u, d)
                for a in t[2]: opuse(a, u, d)
                placeuse(t[3], u, d, True)
            elif t[0] == 'assert':
                opuse(t[1], u, d)
                for a in t[4]: opuse(a, u, d)
            elif t[0] == 'drop': pass
            elif t[0] == 'return':
                if 0 not in d: u.add(0)
            use.append(u); de.append(d)
        L = [set() for _ in blocks]
        # address-taken locals are treated as live everywhere
        taken = set()
        for st, t, _ in blocks:
            for s in st:
                if s[0] == '=' and s[2][0] == 'ref' and '*' not in s[2][2][1]: taken.add(s[2][2][0])
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in self.succ[i]: o |= L[s]
                n = use[i] | (o - de[i])
                if n != L[i]: L[i] = n; ch = True
        self._live_in = L
        self.taken = taken
        return L

class State:
    __slots__ = ('env', 'eff', 'pc')
    def __init__(self, env=None, eff=None, pc=None):
        self.env = env if env is not None else {}
        self.eff = eff if eff is not None else []
        self.pc = pc if pc is not None else {}
    def fork(self):
        return State(dict(self.env), [], dict(self.pc))

class Frame:
    __slots__ = ('body', 'fid', 'tsub', 'cfg', 'failed', 'loopstack', 'unroll', 'depth', 'temps')
    def __init__(self, body, fid, tsub, cfg, depth):
        self.body, self.fid, self.tsub, self.cfg = body, fid, tsub, cfg
        self.failed = False; self.loopstack = []; self.unroll = {}; self.depth = depth; self.temps = set()

class Loop:
    __slots__ = ('id', 'phis', 'eff', 'exits', 'n', 'i', 'node', 'site', 'exit_eff', 'cond')

class Interp:
    UNROLL = 70
    MAXDEPTH = 24
    def __init__(self, facts, policy=None):
        self.F = facts
        T.register_adts(facts.adts)
        self.policy = policy or (lambda *a: None)
        self.decide_hook = None
        self.nfid = 0; self.nres = 0; self.nheap = 0; self.nloop = 0; self.nop = 0
        self.unknown = {}
        self.handed = {}
        self.inlined = set()
        self.analysed_blocks = 0
        self.warn = []
        from . import models
        self.models = models.MODELS
        self.models_rx = models.MODELS_RX
        self.recursion = []

    # ------------------------------------------------------------------ helpers
    def cfg(self, body):
        if body._cfg is None: body._cfg = CFG(body)
        return body._cfg
    def fresh_res(self, tag, okval):
        self.nres += 1
        return mk('res', '%s#%d' % (tag, self.nres), okval)
    def heap(self, st, val):
        self.nheap += 1
        r = ('H', self.nheap)
        st.env[r] = val
        return r
    def REF(self, root, path=()): return mk('ref', root, path)
    def deep(self, st, v, depth=0, noarg=True):
        """resolve references to heap/local objects inside a value (for op arguments and comparisons)"""
        if not isinstance(v, N) or depth > 40: return v
        if v.op == 'ref':
            root, path = v.a
            return mk('deref_of', self.deep(st, self.load(st, root, path), depth + 1)) if root[0] in ('H', 'L', 'C') else \
                   mk('deref_of', self.deep(st, self.load(st, root, path), depth + 1))
        if v.op in ('int', 'sym', 'fnitem', 'str'): return v
        memo = {}
        def go(x):
            if x in memo: return memo[x]
            if x.op == 'ref':
                r = self.deep(st, x, depth + 1)
            else:
                r = rebuild(x, go)
            memo[x] = r
            return r
        return go(v)

    # ------------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.env.get(root)
        if v is None:
            if root[0] == 'P': v = mk('deref', root[1])
            else: v = UNDEF()
            if root[0] == 'P': st.env[root] = v
        return v
    def load(self, st, root, path):
        v = self.root_val(st, root)
        for k in path:
            v = self.simp_top(st, v)
            if v.op == 'ref' and k[0] != '*':
                # implicit deref (boxes)
                v = self.load(st, v.a[0], v.a[1])
            v = self.proj_val(st, v, k)
        return self.simp_top(st, v)
    def proj_val(self, st, v, k, ty=None):
        if k[0] == '*': return self.deref_val(st, v, ty)
        if v.op == 'ite':
            return ITE(v.a[0], self.proj_val(st, v.a[1], k, ty), self.proj_val(st, v.a[2], k, ty))
        r = PROJ(v, k, ty)
        return r
    def deref_val(self, st, v, ty=None):
        v = self.simp_top(st, v)
        if v.op == 'ite':
            return ITE(v.a[0], self.deref_val(st, v.a[1], ty), self.deref_val(st, v.a[2], ty))
        if v.op == 'ref': return self.load(st, v.a[0], v.a[1])
        if v.op == 'undef': return v
        if v.op == 'deref_of': return v.a[0]
        root = ('P', v)
        r = self.root_val(st, root)
        if r.ty is None and ty is not None and r.op == 'deref': r.ty = tystr(ty)
        return r
    def simp_top(self, st, v):
        while v.op == 'ite':
            d = self.decide(st, v.a[0])
            if d is None: return v
            v = v.a[1] if d else v.a[2]
        return v
    def store(self, st, root, path, val):
        if not path:
            st.env[root] = val
            return
        base = self.root_val(st, root)
        st.env[root] = self._upd(st, base, path, val)
    def _upd(self, st, base, path, val):
        if not path: return val
        k = path[0]
        base = self.simp_top(st, base)
        if base.op == 'ref':   # box/reference stored in a field: follow it
            self.store(st, base.a[0], base.a[1] + (path[1:] if k[0] == '*' else path), val)
            return base
        if k[0] == '*':
            self.store(st, ('P', base), path[1:], val)
            return base
        if base.op == 'ite' and k[0] == 'f':
            return ITE(base.a[0], self._upd(st, base.a[1], path, val), self._upd(st, base.a[2], path, val))
        if len(path) == 1: return WITH(base, k, val)
        return WITH(base, k, self._upd(st, PROJ(base, k), path[1:], val))
    def store_ref(self, st, ref, val, path=()):
        ref = self.simp_top(st, ref)
        if ref.op == 'ref':
            self.store(st, ref.a[0], ref.a[1] + path, val)
        elif ref.op == 'ite':
            c = ref.a[0]
            old1 = self.load_ref(st, ref.a[1], path); old2 = self.load_ref(st, ref.a[2], path)
            self.store_ref(st, ref.a[1], ITE(c, val, old1), path)
            self.store_ref(st, ref.a[2], ITE(c, self.load_ref(st, ref.a[2], path), val), path)
        elif ref.op == 'undef': pass
        else:
            self.store(st, ('P', ref), path, val)
    def load_ref(self, st, ref, path=()):
        v = self.deref_val(st, ref)
        for k in path: v = self.proj_val(st, self.simp_top(st, v), k)
        return self.simp_top(st, v)

    # places -----------------------------------------------------------
    def place_targets(self, fr, st, place):
        """-> (root, path) or ('ref', N, path) for a dynamic reference base; also the type"""
        l, proj = place
        root = ('L', fr.fid, l); path = ()
        ty = subst_ty(fr.body.locals[l], fr.tsub)
        dyn = None
        variant = None
        for e in proj:
            if e == '*':
                v = self.load(st, root, path) if dyn is None else self.load_ref(st, dyn, path)
                v = self.simp_top(st, v)
                inner = ty[2] if ty and ty[0] in ('ref', 'ptr') else (ty[2][0] if ty and ty[0] == 'adt' and ty[2] else None)
                if v.op == 'ref': root, path, dyn = v.a[0], v.a[1], None
                elif v.op == 'ite': dyn, path = v, ()
                else: root, path, dyn = ('P', v), (), None
                ty = inner; variant = None
            elif e[0] == 'f':
                if ty and ty[0] == 'adt' and ty[1] in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    ty = subst_ty(e[2], fr.tsub) if e[2] else None
                    if ty and ty[0] == 'adt' and ty[1] not in ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                        pass
                    continue
                path = path + (('f', variant, e[1]),)
                ty = subst_ty(e[2], fr.tsub); variant = None
            elif e[0] == 'd': variant = e[1]
            elif e[0] == 'i':
                iv = self.load(st, ('L', fr.fid, e[1]), ())
                path = path + (('i', iv),)
                ty = ty[1] if ty and ty[0] in ('array', 'slice') else None
            elif e[0] == 'ci':
                if e[3]:
                    base = self.load(st, root, path) if dyn is None else self.load_ref(st, dyn, path)
                    iv = BIN('Sub', LEN(base), INT(e[1], 'usize'), 'usize')
                else: iv = INT(e[1], 'usize')
                path = path + (('i', iv),)
                ty = ty[1] if ty and ty[0] in ('array', 'slice') else None
            else:
                path = path + (('o', str(e)),); ty = None
        return root, path, dyn, ty
    def read_place(self, fr, st, place):
        root, path, dyn, ty = self.place_targets(fr, st, place)
        v = self.load(st, root, path) if dyn is None else self.load_ref(st, dyn, path)
        if v.ty is None and ty is not None:
            v.ty = tystr(ty)
        return v, ty
    def write_place(self, fr, st, place, val):
        root, path, dyn, ty = self.place_targets(fr, st, place)
        if val.ty is None and ty is not None: val.ty = tystr(ty)
        if dyn is None: self.store(st, root, path, val)
        else: self.store_ref(st, dyn, val, path)
    def ref_place(self, fr, st, place):
        root, path, dyn, ty = self.place_targets(fr, st, place)
        if dyn is None: return mk('ref', root, path)
        def go(d):
            if d.op == 'ite': return ITE(d.a[0], go(d.a[1]), go(d.a[2]))
            if d.op == 'ref': return mk('ref', d.a[0], d.a[1] + path)
            return mk('ref', ('P', d), path)
        return go(dyn)

    # constants / operands ----------------------------------------------
    def const(self, st, c):
        k = c[0]
        if k == 'int': return self.scalar_const(c[1], c[2])
        if k == 'str': return mk('str', c[1])
        if k == 'zst':
            t = c[1]
            if t and t[0] == 'tuple': return UNIT()
            if t and t[0] == 'adt':
                return ADT(t[1], 0, ())
            return mk('zst', str(t))
        if k == 'refto':
            v = self.const(st, c[1])
            r = ('C', v)
            st.env.setdefault(r, v)
            return mk('ref', r, ())
        if k == 'array': return mk('arr', *[self.const(st, x) for x in c[1]])
        if k == 'tuple': return mk('tuple', *[self.const(st, x) for x in c[1]])
        if k == 'struct': return ADT(c[1][1], 0, [self.const(st, x) for x in c[2]])
        if k == 'static': return mk('ref', ('S', c[1]), ())
        return mk('konst', str(c))
    def scalar_const(self, v, ty):
        t = tystr(ty)
        if t is None and ty and ty[0] == 'adt':
            a = self.F.adts.get(ty[1])
            if a and a['kind'] == 'struct':      # single scalar field (others zero sized)
                fs = [f[1] for f in a['variants'][0]['fields']]
                if len(fs) == 1: return ADT(ty[1], 0, [self.scalar_const(v, fs[0])])
            if a and a['kind'] == 'enum' and not any(x['fields'] for x in a['variants']):
                ds = [int(x['discr']) for x in a['variants']]
                w = max(8, (max(abs(d) for d in ds)).bit_length() + 1)
                for i, d in enumerate(ds):
                    if d == v or any(d & ((1 << n) - 1) == v for n in (8, 16, 32, 64) if d < 0): return ADT(ty[1], i, [])
            return mk('konst', str((v, ty)))
        return INT(v, t)
    def operand(self, fr, st, o):
        k = o[0]
        if k in ('cp', 'mv'): return self.read_place(fr, st, o[1])[0]
        if k == 'c':
            v = self.const(st, o[1])
            if v.op == 'str':
                r = ('C', v); st.env.setdefault(r, v)
                return mk('ref', r, ())
            if v.op == 'konst' and o[3]: return mk('konst', o[3])
            if v.op == 'zst' or (v.op=='adt' and not v.a[2:]):
                pass
            return v
        if k == 'fn':
            return self.fnitem(o[1], fr.tsub)
        if k == 'promoted':
            b = fr.body.promoted[o[1]]
            v = self.eval_promoted(fr, b, st)
            return v
        if k == 'rtc': return BOOL(o[1] == 'OverflowChecks')
        return mk('konst', str(o))
    def fnitem(self, f, tsub):
        key = (f['fn'], tuple(subst_ty(x, tsub) for x in f['args']), f.get('res'), f.get('rkind'),
               tuple(subst_ty(x, tsub) for x in f.get('rargs', ())), f.get('trait'), f['name'], f.get('ctor', 0))
        return mk('fnitem', key)
    def eval_promoted(self, fr, b, st):
        sub = State({}, [], {})
        f2 = self.new_frame(b, fr.tsub, fr.depth + 1)
        outs = self.run(f2, 0, {}, sub)
        s = outs.get('ret')
        if s is None: return mk('konst', 'promoted')
        v = s.env.get(('L', f2.fid, 0), UNDEF())
        # promoted returns a reference to its own local: re-root as constant
        for k, x in s.env.items():
            st.env.setdefault(k, x)
        def reroot(x):
            if x.op == 'ref' and x.a[0][0] == 'L' and x.a[0][1] == f2.fid:
                val = self.load(s, x.a[0], x.a[1])
                def fix(y):
                    return reroot(y) if y.op == 'ref' else rebuild(y, fix)
                val = fix(val)
                r = ('C', val)
                st.env[r] = val
                return mk('ref', r, ())
            return x
        return reroot(v) if v.op == 'ref' else v

    def new_frame(self, body, tsub, depth):
        self.nfid += 1
        return Frame(body, self.nfid, tsub, self.cfg(body), depth)

    def adt_of(self, ty):
        if ty is not None and ty[0] == 'adt': return self.F.adts.get(ty[1])
        return None

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty, line):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'ref': return self.ref_place(fr, st, r[2])
        if k == 'bin':
            x = self.operand(fr, st, r[2]); y = self.operand(fr, st, r[3])
            op = r[1]
            tx = self.opty(fr, r[2]) or x.ty
            if op.endswith('WithOverflow'):
                b = op[:-12]
                v = BIN(b, x, y, tx)
                return mk('tuple', v, self.overflow(st, b, x, y, tx))
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if x.op in ('int',) and y.op != 'int' and y.ty is None: y.ty = tx
                if x.ty is None: x.ty = tx
                if y.ty is None: y.ty = tx
                return BIN(op, x, y, 'bool')
            if op == 'Cmp': return mk('app', 'cmp', x, y)
            return BIN(op, x, y, tx)
        if k == 'un':
            x = self.operand(fr, st, r[2])
            tx = self.opty(fr, r[2]) or x.ty
            if r[1] == 'PtrMetadata':
                v = self.deref_val(st, x)
                return LEN(v)
            return UN(r[1], x, tx)
        if k == 'cast':
            x = self.operand(fr, st, r[2])
            kind = r[1]
            to = subst_ty(r[3], fr.tsub)
            if kind in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                frm = self.opty(fr, r[2]) or x.ty
                tt = tystr(to)
                if x.op == 'discr' or (x.op == 'ite' and frm not in WIDTH): pass
                return CAST(x, frm, tt)
            if kind == 'Transmute':
                return x
            return x
        if k == 'discr':
            v, ty = self.read_place(fr, st, r[1])
            d = DISCR(v, self.adt_of(ty))
            return d
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tuple': return mk('tuple', *ops)
            if kk[0] == 'array': return mk('arr', *ops)
            if kk[0] == 'adt':
                return mk('adt', kk[1], kk[2], *ops)
            if kk[0] == 'closure': return mk('closure', kk[1], *ops)
            return mk('konst', str(kk), *ops)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            return mk('repeat', v, INT(r[2], 'usize') if r[2] is not None else mk('sym', 'constlen'))
        return mk('konst', str(r))

    def opty(self, fr, o):
        if o[0] in ('cp', 'mv'):
            l, proj = o[1]
            if not proj: return tystr(subst_ty(fr.body.locals[l], fr.tsub))
            e = proj[-1]
            if isinstance(e, tuple) and e[0] == 'f': return tystr(subst_ty(e[2], fr.tsub))
            if e == '*':
                t = subst_ty(fr.body.locals[l], fr.tsub)
                if len(proj) == 1 and t[0] in ('ref', 'ptr'): return tystr(t[2])
            return None
        if o[0] == 'c': return tystr(o[2])
        return None

    def overflow(self, st, op, x, y, ty):
        if isint(x) and isint(y):
            a, b = x.a[0], y.a[0]
            v = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            lo, hi = rng(ty)
            return BOOL(not lo <= v <= hi)
        return mk('ovf?', op, x, y, ty, ty='bool')

    # ------------------------------------------------------------------ decisions
    def decide(self, st, c):
        if c.op == 'int': return bool(c.a[0])
        if c.op == 'undef': return None
        p = st.pc.get(c)
        if p is not None: return p
        if c.op == 'not':
            d = self.decide(st, c.a[0])
            return None if d is None else not d
        if c.op == 'ite':
            d = self.decide(st, c.a[0])
            if d is not None: return self.decide(st, c.a[1] if d else c.a[2])
            a = self.decide(st, c.a[1]); b = self.decide(st, c.a[2])
            if a is not None and a == b: return a
            return None
        if c.op == 'bin' and c.a[0] == 'Eq' and isint(c.a[2]):
            iv = st.pc.get(('iv', c.a[1]))
            if iv is not None:
                k = c.a[2].a[0]
                if not iv[0] <= k <= iv[1]: return False
                if iv[0] == iv[1]: return True
        if c.op == 'bin' and c.a[0] == 'Le':
            x, y = self.interval(st, c.a[1]), self.interval(st, c.a[2])
            if x is not None and y is not None:
                if x[1] <= y[0]: return True
                if x[0] > y[1]: return False
            if not isint(c.a[1]) and not isint(c.a[2]) and c.a[1].ty in WIDTH and st.pc.get(mk('bin', 'Le', c.a[2], c.a[1], ty='bool')) is False: return True
            if c.a[1] is c.a[2]: return True
            if c.a[2].ty in WIDTH and c.a[2].ty not in T.SIGNED and ranges.nowrap(self, st, c.a[2], c.a[1]): return True
        if c.op == 'ovf?':
            d = ranges.overflow(self, st, *c.a)
            if d is not None: return d
        if self.decide_hook: return self.decide_hook(st, c)
        return None
    rangehook = None
    growops = False
    def interval(self, st, x): return ranges.interval(self, st, x)
    def assume(self, st, c, val):
        if c.op == 'int': return
        if c.op == 'not': return self.assume(st, c.a[0], not val)
        known = c in st.pc
        st.pc[c] = val
        if c.op == 'ite' and c.ty == 'bool':
            x, a, b = c.a
            d = self.decide(st, x)
            if d is not None: self.assume(st, a if d else b, val)
            elif val and isint(b) and not b.a[0]: self.assume(st, x, True); self.assume(st, a, True)
            elif not val and isint(a) and a.a[0]: self.assume(st, x, False); self.assume(st, b, False)
            elif val and isint(a) and not a.a[0]: self.assume(st, x, False); self.assume(st, b, True)
            elif not val and isint(b) and b.a[0]: self.assume(st, x, True); self.assume(st, a, False)
            elif not known: st.pc[('ites',)] = st.pc.get(('ites',), ()) + ((c, val),)
        elif c.op == 'bin' and c.a[0] == 'Eq' and isint(c.a[2]):
            k = c.a[2].a[0]
            if val: st.pc[('iv', c.a[1])] = (k, k)
            else:
                iv = self.interval(st, c.a[1])
                if iv is not None and iv[0] < iv[1] and k in iv: st.pc[('iv', c.a[1])] = (k + 1, iv[1]) if k == iv[0] else (iv[0], k - 1)
        elif c.op == 'bin' and c.a[0] == 'Le' and isint(c.a[2]):
            iv = self.interval(st, c.a[1])
            if iv is not None:
                k = c.a[2].a[0]
                iv = (iv[0], min(iv[1], k)) if val else (max(iv[0], k + 1), iv[1])
                if iv[0] <= iv[1]: st.pc[('iv', c.a[1])] = iv
        # gated facts whose gate is decided by now
        if not known and c.op != 'ite':
            pend = st.pc.get(('ites',))
            if pend:
                left = tuple((q, v) for q, v in pend if self.decide(st, q.a[0]) is None)
                if len(left) != len(pend):
                    st.pc[('ites',)] = left
                    for q, v in pend:
                        if (q, v) not in left:
                            d = self.decide(st, q.a[0]); self.assume(st, q.a[1] if d else q.a[2], v)

    # ------------------------------------------------------------------ execution
    def run(self, fr, b, stops, st, cut=None):
        """Execute from block b until a block in `stops` (dict block->outcome name) or return.
        Returns {outcome: State}. `cut` = (loop header, loop blocks) when running a loop body once."""
        cfg = fr.cfg
        body = fr.body
        first = True
        while True:
            if not first or cut is None:
                if b in stops: return {stops[b]: st}
            elif b in stops and not first: return {stops[b]: st}
            if cut is not None and not first and b == cut[0]: return {'BACK': st}
            if cut is not None and b not in cut[1]: return {('EXIT', b): st}
            # loop entry
            if b in cfg.loops and not (cut is not None and first and b == cut[0]):
                key = (fr.fid, b)
                if key in fr.unroll:
                    fr.unroll[key] += 1
                    if fr.unroll[key] > self.UNROLL: raise NeedSummary(key)
                else:
                    outs = self.loop(fr, b, st, stops, cut)
                    # loop outcomes: ('at', block) continue, or final outcomes
                    cont = [k for k in outs if isinstance(k, tuple) and k[0] == 'at']
                    if len(outs) == 1 and cont:
                        st = outs[cont[0]]; b = cont[0][1]; first = False
                        continue
                    res = {}
                    for k, s in outs.items():
                        if k in cont:
                            sub = self.run(fr, k[1], stops, s, cut) if not (k[1] in stops) else {stops[k[1]]: s}
                            for kk, ss in sub.items():
                                if kk in res: res[kk] = self.merge_any(res[kk], ss)
                                else: res[kk] = ss
                        else:
                            res[k] = self.merge_any(res[k], s) if k in res else s
                    return res
            first = False
            self.analysed_blocks += 1
            stm, t, _ = body.blocks[b]
            for s in stm:
                if s[0] == '=':
                    v = self.rvalue(fr, st, s[2], None, s[3])
                    self.write_place(fr, st, s[1], v)
                elif s[0] == 'setd':
                    root, path, dyn, ty = self.place_targets(fr, st, s[1])
                    v = self.load(st, root, path)
                    if ty and ty[0] == 'adt':
                        self.write_place(fr, st, s[1], mk('adt', ty[1], s[2]))
            k = t[0]
            if k == 'goto': b = t[1]; continue
            if k == 'drop': b = t[2]; continue
            if k == 'return': return {'ret': st}
            if k in ('unreachable', 'resume'): return {}
            if k == 'assert':
                c = self.operand(fr, st, t[1])
                bad = NOT(c) if t[2] else c
                d = self.decide(st, bad)
                if d is not False:
                    ops = tuple(self.operand(fr, st, o) for o in t[4])
                    st.eff.append(('panic', BOOL(True) if d else bad, t[3], (body.path, t[6]), ops))
                    if d: return {}
                    self.assume(st, bad, False)
                b = t[5]; continue
            if k == 'call':
                r = self.call_term(fr, st, t)
                if r == 'diverge': return {}
                b = t[4]
                if b is None: return {}
                continue
            if k == 'switch':
                outs = self.switch(fr, b, t, st, stops, cut)
                if isinstance(outs, int): b = outs; continue
                if isinstance(outs, tuple): b, st = outs; continue
                return outs
            raise AnalysisError('terminator %s in %s' % (k, body.path))

    def site(self, fr, line): return (fr.body.path, line)

    def switch(self, fr, b, t, st, stops, cut):
        cfg = fr.cfg
        v = self.operand(fr, st, t[1])
        v = self.simp_top(st, v)
        vt = tystr(t[4])
        line = t[5]
        arms = []   # (cond, block)
        rest = BOOL(True)
        other = t[3]
        other_dead = cfg.dead[other] and fr.body.blocks[other][1][0] == 'unreachable'
        tg = list(t[2])
        conds = []
        for i, (val, blk) in enumerate(tg):
            if vt in WIDTH: val = wrap(val, vt)
            if vt == 'bool':
                c = NOT(v) if val == 0 else v
            else:
                if v.ty is None: v.ty = vt
                c = BIN('Eq', v, INT(val, v.ty if v.ty in WIDTH else (vt or 'i128')), 'bool')
            if other_dead and i == len(tg) - 1: c = BOOL(True)
            conds.append((c, blk))
        conds.append((BOOL(True), other))
        # sequential semantics: arm i taken if c_i and no earlier
        arms = []
        for c, blk in conds:
            d = self.decide(st, c)
            if d is False: continue
            arms.append((BOOL(True) if d else c, blk))
            if d: break
        # drop unreachable arms
        arms = [(c, blk) for c, blk in arms if not (cfg.dead[blk] and fr.body.blocks[blk][1][0] == 'unreachable')] or arms
        if len(arms) == 1: return arms[0][1]
        return self.branch(fr, b, arms, st, stops, cut, line)

    def branch(self, fr, b, arms, st, stops, cut, line):
        """arms: sequential list of (cond, block); last one is taken otherwise."""
        cfg = fr.cfg
        # cut failing / diverging arms
        live = []
        neg = []      # conditions of arms already handled
        i = 0
        n = len(arms)
        # evaluate each arm's guard lazily: nested if-else chain
        c, blk = arms[0]
        last = (n == 1)
        if last: return blk
        rest = arms[1:]
        fail0 = cfg.fail[blk]
        dead0 = cfg.dead[blk]
        if fail0 or dead0:
            if dead0: self.dead_arm(fr, st, c, blk, line)
            else:
                fr.failed = True
                st.eff.append(('fail', c, (fr.body.path, line), self.fail_payload(fr, blk)))
            self.assume(st, c, False)
            return self.branch2(fr, b, rest, st, stops, cut, line)
        # all the others dead/failing?
        if all(cfg.fail[x] or cfg.dead[x] for _, x in rest):
            nc = NOT(c)
            for cc, x in rest:
                if cfg.dead[x]:
                    self.dead_arm(fr, st, AND(nc, cc) if cc.op != 'int' else nc, x, line)
                else:
                    fr.failed = True
                    st.eff.append(('fail', AND(nc, cc) if cc.op != 'int' else nc, (fr.body.path, line), self.fail_payload(fr, x)))
                nc = AND(nc, NOT(cc)) if cc.op != 'int' else nc
            self.assume(st, c, True)
            return blk
        ip = (cfg.cut_ipdom(cut[0]) if cut is not None else cfg.ipdom).get(b, VEXIT)
        s1 = st.fork(); self.assume(s1, c, True)
        s2 = st.fork(); self.assume(s2, c, False)
        stops2 = stops
        if ip != VEXIT and ip not in stops:
            stops2 = dict(stops); stops2[ip] = ('J', ip)
        elif ip in stops:
            pass
        o1 = self.run_from(fr, blk, stops2, s1, cut)
        r2 = self.branch2(fr, b, rest, s2, stops2, cut, line)
        if isinstance(r2, int): o2 = self.run_from(fr, r2, stops2, s2, cut)
        elif isinstance(r2, tuple): o2 = self.run_from(fr, r2[0], stops2, r2[1], cut)
        else: o2 = r2
        res = {}
        for k in list(o1) + [k for k in o2 if k not in o1]:
            a, bb = o1.get(k), o2.get(k)
            if a is not None and bb is not None:
                m = self.merge(c, a, bb, (fr.body.path, line))
            elif a is not None:
                m = a
                if o2: m.eff = [('guard', c, True)] + m.eff
                elif c.op != 'int': m.eff = [('panicpath', NOT(c), (fr.body.path, line))] + m.eff
            else:
                m = bb
                if o1: m.eff = [('guard', c, False)] + m.eff
                elif c.op != 'int': m.eff = [('panicpath', c, (fr.body.path, line))] + m.eff
            m.eff = st.eff + m.eff
            # facts known before the branch stay known
            pc = dict(st.pc)
            if a is None or bb is None: pc.update(m.pc)
            m.pc = pc
            res[k] = m
        J = ('J', ip)
        if set(res) == {J} and J not in stops.values():
            return (ip, res[J])
        if J in res and J not in stops.values():
            sub = self.run_from(fr, ip, stops, res.pop(J), cut)
            for k, s in sub.items():
                res[k] = self.merge_any(res[k], s) if k in res else s
        return res

    def branch2(self, fr, b, arms, st, stops, cut, line):
        # re-decide remaining arms under the new assumptions
        out = []
        for c, blk in arms:
            d = self.decide(st, c)
            if d is False: continue
            out.append((BOOL(True) if d else c, blk))
            if d: break
        if not out: return {}
        if len(out) == 1:
            blk = out[0][1]
            if fr.cfg.dead[blk]: 
                return blk
            return blk
        return self.branch(fr, b, out, st, stops, cut, line)

    def run_from(self, fr, blk, stops, st, cut):
        if blk in stops: return {stops[blk]: st}
        if cut is not None:
            if blk == cut[0]: return {'BACK': st}
            if blk not in cut[1]: return {('EXIT', blk): st}
        return self.run(fr, blk, stops, st, cut) if cut is None else self.run_cut(fr, blk, stops, st, cut)
    def run_cut(self, fr, blk, stops, st, cut):
        return self.run(fr, blk, stops, st, cut)

    def merge_any(self, a, b):
        # two states reaching the same outcome with unknown relation: gate on the guards recorded in eff
        for i in range(min(len(a.eff), len(b.eff))):
            x, y = a.eff[i], b.eff[i]
            if x is y: continue
            if x[0] == 'guard' and y[0] == 'guard' and x[1] is y[1] and x[2] != y[2]:
                pre = a.eff[:i]
                A = State(a.env, a.eff[i+1:], a.pc); B = State(b.env, b.eff[i+1:], b.pc)
                m = self.merge(x[1], A, B, None) if x[2] else self.merge(x[1], B, A, None)
                m.eff = pre + m.eff
                return m
            break
        raise AnalysisError('unstructured join')

    def dead_arm(self, fr, st, cond, blk, line):
        """an arm that only panics/diverges: classify by running it on a scratch state"""
        kind, msg = self.diverge_kind(fr, blk)
        if kind == 'unreachable': return
        st.eff.append(('panic', cond, kind, (fr.body.path, line), ()))
    def diverge_kind(self, fr, blk):
        seen = set(); q = [blk]
        while q:
            b = q.pop()
            if b in seen: continue
            seen.add(b)
            t = fr.body.blocks[b][1]
            if t[0] == 'call' and t[4] is None:
                return ('panic:' + (t[1][1]['name'] if t[1][0] == 'fn' else '?'), t[5])
            q += succs(t)
        return ('unreachable', 0)
    def fail_payload(self, fr, blk):
        """the error constructor used on a failing arm (name), for error-kind checks"""
        seen = set(); q = [blk]
        while q:
            b = q.pop(0)
            if b in seen: continue
            seen.add(b)
            for s in fr.body.blocks[b][0]:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].endswith('ZserioError'):
                    return 'ZserioError#%d' % s[2][1][2]
            t = fr.body.blocks[b][1]
            if t[0] == 'call' and t[1][0] == 'fn' and t[1][1]['name'] == 'from_residual': return 'residual'
            q += succs(t)
        return None

    def merge(self, c, a, b, site):
        env = {}
        ea, eb = a.env, b.env
        for k, v in ea.items():
            w = eb.get(k)
            if w is None:
                if k[0] == 'P': w = mk('deref', k[1])
                elif k[0] == 'L': env[k] = v if False else ITE(c, v, UNDEF()); continue
                else: env[k] = v; continue
            env[k] = v if v is w else ITE(c, v, w)
        for k, w in eb.items():
            if k not in ea:
                if k[0] == 'P': env[k] = ITE(c, mk('deref', k[1]), w)
                else: env[k] = w
        eff = []
        if a.eff or b.eff:
            eff = [('if', c, a.eff, b.eff, site)]
        return State(env, eff, {})

    # ------------------------------------------------------------------ loops
    def loop(self, fr, h, st, stops, cut):
        cfg = fr.cfg
        blk = cfg.loops[h]
        E = cfg.loop_exit(h)
        key = (fr.fid, h)
        # 1. constant trip count: unroll
        save_eff, save_env, save_pc = list(st.eff), dict(st.env), dict(st.pc)
        if not self.symbolic_iter(fr, h, st):
            fr.unroll[key] = 0
            try:
                stops2 = dict(stops)
                if E != VEXIT and E not in stops2: stops2[E] = ('at', E)
                f0 = fr.failed
                outs = self.run(fr, h, stops2, st, None if cut is None else None)
                del fr.unroll[key]
                return outs
            except NeedSummary as e:
                fr.unroll.pop(key, None)
                if e.key != key: raise
                st.eff, st.env, st.pc = save_eff, save_env, save_pc
        return self.summarise(fr, h, st, stops, E)

    def symbolic_iter(self, fr, h, st):
        """quick test: does the loop's first decision depend on a non-constant bound?"""
        try:
            cut = (h, fr.cfg.loops[h])
            s = State(dict(st.env), [], dict(st.pc))
            self._probe = True
            nf, nr, nh = self.nfid, self.nres, self.nheap
            b = h
            # follow straight-line code in the header until the first switch
            body = fr.body
            for _ in range(20):
                stm, t, _ = body.blocks[b]
                for x in stm:
                    if x[0] == '=': self.write_place(fr, s, x[1], self.rvalue(fr, s, x[2], None, 0))
                if t[0] == 'goto': b = t[1]
                elif t[0] == 'drop': b = t[2]
                elif t[0] == 'assert': b = t[5]
                elif t[0] == 'call':
                    r = self.call_term(fr, s, t)
                    if r == 'diverge' or t[4] is None: return False
                    b = t[4]
                elif t[0] == 'switch':
                    v = self.operand(fr, s, t[1])
                    d = None
                    if tystr(t[4]) == 'bool': d = self.decide(s, v)
                    elif isint(self.simp_top(s, v)): d = True
                    else:
                        c = BIN('Eq', self.simp_top(s, v), INT(t[2][0][0], v.ty or 'i128'), 'bool')
                        d = self.decide(s, c)
                    # does the loop leave here?
                    leaves = any(x not in cut[1] for x in fr.cfg.live[b])
                    return leaves and d is None and not self.force_unroll
                else: return False
            return False
        finally:
            self._probe = False
    force_unroll = False

    def summarise(self, fr, h, st, stops, E):
        cfg = fr.cfg
        blk = cfg.loops[h]
        self.nloop += 1
        lid = self.nloop
        live = cfg.live_in()[h] | cfg.taken
        base_env = {}
        for k, v in st.env.items():
            if k[0] == 'L' and k[1] == fr.fid and k[2] not in live: continue
            base_env[k] = v
        phis = {}   # (root, path) -> (phi, init)
        for it in range(12):
            s = State(dict(base_env), [], dict(st.pc))
            for (root, path), (phi, init) in phis.items():
                self.store(s, root, path, phi)
            start = dict(s.env)
            nl, nr, no = self.nloop, self.nres, self.nop
            unroll_save = dict(fr.unroll)
            self.loopdepth += 1
            try: outs = self.run(fr, h, {}, s, (h, blk))
            finally: self.loopdepth -= 1
            fr.unroll = unroll_save
            back = outs.get('BACK')
            if back is not None: self.on_back(back)
            if back is None:
                # body never iterates: treat as straight line
                break
            guards = {}
            self._collect_guards(back.eff, guards)
            back_env = {}
            new = False
            for root, t0 in start.items():
                t1 = back.env.get(root, t0)
                if t1 is t0: continue
                t1 = self.simp_guards(t1, guards)
                for path in diffpaths(t0, t1):
                    if (root, path) in phis: continue
                    # is an ancestor already phi?
                    if any(r == root and path[:len(p)] == p for (r, p) in phis): continue
                    # remove descendants
                    for kk in [kk for kk in phis if kk[0] == root and kk[1][:len(path)] == path]: del phis[kk]
                    init = self.load(State(base_env, [], {}), root, path)
                    phis[(root, path)] = (mk('phi', lid, len(phis), ty=init.ty), init)
                    new = True
            if not new: break
            self.nloop, self.nres, self.nop = nl, nr, no
        else:
            raise AnalysisError('loop does not stabilise in %s' % fr.body.path)
        L = Loop()
        L.id = lid; L.site = (fr.body.path, self._line(fr, h))
        back = outs.get('BACK')
        exits = {k: v for k, v in outs.items() if k != 'BACK'}
        guards = {}
        if back is not None: self._collect_guards(back.eff, guards)
        L.phis = []
        for (root, path), (phi, init) in phis.items():
            nx = self.load(State(back.env, [], back.pc), root, path) if back is not None else phi
            nx = self.simp_guards(nx, guards)
            L.phis.append([(root, path), phi, init, nx])
        # merge identical induction variables
        merged = {}
        ind = None
        for p in L.phis:
            _, phi, init, nx = p
            if nx.op == 'bin' and nx.a[0] == 'Add' and nx.a[1] is phi and isint(nx.a[2]) and nx.a[2].a[0] == 1:
                if ind is None or (isint(init) and not isint(ind[2])): ind = p
        if ind is not None:
            for p in L.phis:
                if p is ind: continue
                _, phi, init, nx = p
                if nx.op == 'bin' and nx.a[0] == 'Add' and nx.a[1] is phi and isint(nx.a[2]) and nx.a[2].a[0] == 1 and \
                   (init is ind[2] or (isint(init) and isint(ind[2]) and init.a[0] == ind[2].a[0])):
                    merged[phi] = ind[1] if phi.ty == ind[1].ty or phi.ty is None else CAST(ind[1], ind[1].ty, phi.ty)
        eff = back.eff if back is not None else []
        if merged:
            L.phis = [p for p in L.phis if p[1] not in merged]
            for p in L.phis: p[3] = subst(p[3], merged)
            eff = map_eff(eff, lambda n: subst(n, merged))
            for s in exits.values():
                s.env = {k: subst(v, merged) for k, v in s.env.items()}
                s.eff = map_eff(s.eff, lambda n: subst(n, merged))
        L.eff = eff
        L.i = ind[1] if ind is not None else None
        # trip count from the first guard
        L.n = None; L.cond = None
        for e in eff:
            if e[0] == 'guard':
                c = e[1] if e[2] else NOT(e[1])
                L.cond = c
                if ind is not None:
                    n = bound_of(c, ind[1])
                    if n is not None: L.n = n if isint(ind[2]) and ind[2].a[0] == 0 else BIN('Sub', n, ind[2], n.ty)
                break
        nguards = sum(1 for e in eff if e[0] == 'guard')
        simple = L.n is not None and nguards == 1 and len(exits) == 1 and not phi_free(L.n, L.phis)
        # final values
        sub = {}
        node = None
        L.exit_eff = {}
        if simple:
            for p in L.phis:
                (root, path), phi, init, nx = p
                if L.i is phi:
                    sub[phi] = BIN('Add', init, L.n, phi.ty) if not (isint(init) and init.a[0] == 0) else L.n
                elif nx.op == 'push' and nx.a[0] is phi:
                    sub[phi] = mk('build', init, L.n, mk('lam', L.i, nx.a[1]), ty=init.ty)
                elif phi.ty in WIDTH and nx.op != 'undef' and not any(y.op == 'phi' and y is not phi and y is not L.i for y in walk(nx)):
                    sub[phi] = ITER(L.n, L.i, phi, nx, init)
        if back is not None:
            node = mk('loopn', tuple((p[2], p[3]) for p in L.phis), tuple(p[1] for p in L.phis), L.n if L.n is not None else (L.cond if L.cond is not None else UNIT()))
        for j, p in enumerate(L.phis):
            if p[1] not in sub: sub[p[1]] = mk('loopout', node, j, ty=p[1].ty)
        L.node = node
        pre = st.eff
        res = {}
        for k, s in exits.items():
            env = {kk: subst(v, sub) for kk, v in s.env.items()}
            # effects on the exit path of the last, partial iteration (after dropping guards)
            tail = [e for e in s.eff if e[0] not in ('guard', 'panicpath')]
            tail = [e for e in tail if not (e[0] in ('panic', 'fail'))] if simple else tail
            tail = map_eff(tail, lambda n: subst(n, sub))
            eff2 = pre + ([('loop', L)] if back is not None else []) + tail
            if not simple and back is not None: eff2 = pre + [('loop', L)] + tail
            ns = State(env, eff2, dict(st.pc))
            if isinstance(k, tuple) and k[0] == 'EXIT':
                b = k[1]
                if b in stops: res[stops[b]] = ns
                else: res[('at', b)] = ns
            else: res[k] = ns
        L.exits = [str(k) for k in exits]
        if len(res) > 1:
            for k, s in res.items():
                s.eff.append(('loopexit', lid, str(k)))
        return res
    def on_back(self, st): pass
    loopdepth = 0
    def _line(self, fr, b):
        t = fr.body.blocks[b][1]
        return t[5] if t[0] == 'call' else fr.body.line
    def _collect_guards(self, eff, g):
        for e in eff:
            if e[0] == 'guard': g[e[1]] = BOOL(e[2])
            elif e[0] == 'fail' or e[0] == 'panic':
                if e[1].op not in ('int',): g.setdefault(e[1], BOOL(False))
    def simp_guards(self, t, g):
        if not g: return t
        m = {}
        for c, v in g.items():
            m[c] = v
        return subst(t, m)

    # ------------------------------------------------------------------ calls
    def call_term(self, fr, st, t):
        f = self.operand(fr, st, t[1])
        args = [self.operand(fr, st, a) for a in t[2]]
        dty = None
        if not t[3][1]: dty = subst_ty(fr.body.locals[t[3][0]], fr.tsub)
        atys = [self.operand_ty(fr, a) for a in t[2]]
        r = self.call_value(fr, st, f, args, dty, t[5], atys)
        if r is None: return 'diverge'
        if t[4] is not None: self.write_place(fr, st, t[3], r)
        return None
    def operand_ty(self, fr, o):
        if o[0] in ('cp', 'mv'):
            l, proj = o[1]
            ty = fr.body.locals[l]
            for e in proj:
                if e == '*': ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
                elif isinstance(e, tuple) and e[0] == 'f': ty = e[2]
                elif isinstance(e, tuple) and e[0] in ('i', 'ci'): ty = ty[1] if ty and ty[0] in ('array', 'slice') else None
            return subst_ty(ty, fr.tsub)
        if o[0] == 'c': return o[2]
        return None

    def resolve(self, key):
        """fnitem key -> (path, type args, trait, name)"""
        fn, args, res, rkind, rargs, trait, name, ctor = key
        if res and rkind == 'item' and (trait is None or res != fn or res in self.F.bodies and trait is None):
            return res, rargs, trait, name
        if trait is not None:
            selfty = args[0] if args else None
            if res and rkind == 'item' and res != fn: return res, rargs, trait, name
            if selfty is not None and selfty[0] not in ('param', 'dyn', 'other'):
                for im in self.F.impl_index.get(trait, ()):
                    m = {}
                    if unify_ty(im['self'], selfty, m) and all(unify_ty(a, b, m) for a, b in zip(im['trait'][1][1:], args[1:])):
                        if name in im['items']:
                            p = im['items'][name]
                            b = self.F.bodies.get(p)
                            if b is not None:
                                return p, tuple(m.get(g, ('param', g)) for g in b.generics), trait, name
                            return p, (), trait, name
                        # default method
                        if fn in self.F.bodies: return fn, args, trait, name
            if res and rkind == 'item': return res, rargs, trait, name
            return fn, args, trait, name
        return res or fn, rargs or args, trait, name

    def call_value(self, fr, st, f, args, dty, line, atys=None):
        if f.op == 'closure':
            return self.call_closure(fr, st, f, args, line)
        if f.op == 'ref':
            return self.call_value(fr, st, self.load(st, f.a[0], f.a[1]), args, dty, line, atys)
        if f.op != 'fnitem':
            return self.unknown_call(fr, st, 'indirect:' + show(f, 3), args, dty, line, atys)
        key = f.a[0]
        path, targs, trait, name = self.resolve(key)
        if key[7]:   # constructor function
            p = key[0]
            if '::' in p:
                # enum variant or tuple struct
                for q, a in ((p.rsplit('::', 1)[0], None), (p, None)):
                    adt = self.F.adts.get(q)
                    if adt:
                        for i, v in enumerate(adt['variants']):
                            if adt['kind'] == 'struct' or v['name'] == p.rsplit('::', 1)[1]:
                                return mk('adt', q, i, *args)
        ctx = CallCtx(self, fr, st, path, targs, trait, name, key, args, dty, line, atys or [None] * len(args))
        r = self.policy(ctx)
        if r is not None:
            return None if r == 'diverge' else r
        m = self.models.get(path)
        if m is None and trait is not None: m = self.models.get(trait + '::' + name) if path.startswith(('<', 'core::', 'alloc::', 'std::')) or path not in self.F.bodies else None
        if m is not None:
            r = m(ctx)
            if r is not NotImplemented:
                return None if r == 'diverge' else r
        for rx, m in self.models_rx:
            if rx.match(path):
                r = m(ctx)
                if r is not NotImplemented: return None if r == 'diverge' else r
        b = self.F.bodies.get(path)
        if b is not None and fr.depth < self.MAXDEPTH and self.recursion.count(path) < 2:
            return self.inline(fr, st, b, targs, args, line)
        return self.unknown_call(fr, st, path, args, dty, line, atys)

    def inline(self, fr, st, b, targs, args, line, tsub=None):
        self.inlined.add(b.path)
        if tsub is None:
            tsub = dict(zip(b.generics, targs)) if targs else {}
        f2 = self.new_frame(b, tsub, fr.depth + 1 if fr else 0)
        for i, a in enumerate(args):
            st.env[('L', f2.fid, i + 1)] = a
        sub = State(st.env, [], st.pc)
        self.recursion.append(b.path)
        try:
            outs = self.run(f2, 0, {}, sub)
        finally:
            self.recursion.pop()
        s = outs.get('ret')
        if s is None:
            st.eff += sub.eff
            st.eff.append(('panic', BOOL(True), 'diverges', (b.path, line), ()))
            return None
        ret = s.env.get(('L', f2.fid, 0), UNIT())
        ret = self.simp_top(s, ret)
        st.env = {k: v for k, v in s.env.items() if not (k[0] == 'L' and k[1] == f2.fid)}
        # returned references to callee locals cannot exist in safe Rust (promoteds are re-rooted)
        st.pc = s.pc
        rty = b.locals[0]
        rid = None
        if f2.failed and rty and rty[0] == 'adt' and rty[1] == RESULT:
            ok = PROJ(ret, ('f', 0, 0))
            old = ret
            ret = self.fresh_res('call:' + b.name, ok)
            rid = ret.a[0]
            # a result handed on unchanged: its failure is the call's failure
            if old.op == 'res': self.handed[old.a[0]] = rid
        if s.eff: st.eff.append(('call', b.path, rid, s.eff, line))
        return ret

    def call_closure(self, fr, st, f, args, line, home=None):
        p = f.a[0]
        b = self.F.bodies.get(p)
        if b is None: return self.unknown_call(fr, st, p, args, None, line, [None] * len(args))
        env = f
        if b.locals[1][0] == 'ref':
            t0 = mk('tuple', *f.a[1:])
            r = self.heap(st, t0)
            env = mk('ref', r, ())
            v = self.inline(fr, st, b, (), [env] + list(args), line, tsub=dict(fr.tsub))
            if home is not None and v is not None:
                # a closure that owns what it changes keeps the change
                t1 = self.load(st, r, ())
                if t1 is not t0 and t1.op == 'tuple': self.store_ref(st, home, mk('closure', p, *t1.a))
            return v
        env = mk('tuple', *f.a[1:])
        return self.inline(fr, st, b, (), [env] + list(args), line, tsub=dict(fr.tsub))

    def unknown_call(self, fr, st, path, args, dty, line, atys):
        self.unknown.setdefault(path, []).append((fr.body.path, line))
        dargs = [self.deep(st, a) for a in args]
        self.nop += 1
        res = mk('app', path, *dargs, ty=tystr(dty))
        muts = False
        for i, a in enumerate(args):
            t = atys[i] if atys and i < len(atys) else None
            if a.op == 'ref' and t is not None and t[0] == 'ref' and t[1]:
                muts = True
                self.store(st, a.a[0], a.a[1], mk('havoc', path, i, self.nop, *dargs))
        if muts:
            res = mk('app', path, mk('int', self.nop, 'opno'), *dargs, ty=tystr(dty))
            st.eff.append(('havoc', path, tuple(dargs), (fr.body.path, line)))
        return res

class CallCtx:
    __slots__ = ('I', 'fr', 'st', 'path', 'targs', 'trait', 'name', 'key', 'args', 'dty', 'line', 'atys')
    def __init__(self, *a):
        (self.I, self.fr, self.st, self.path, self.targs, self.trait, self.name, self.key, self.args, self.dty, self.line, self.atys) = a
    def load(self, i):
        """value behind the i-th argument (a reference)"""
        return self.I.deref_val(self.st, self.args[i])
    def val(self, i): return self.I.simp_top(self.st, self.args[i])
    def store(self, i, v): self.I.store_ref(self.st, self.args[i], v)
    def deep(self, x): return self.I.deep(self.st, x)
    def site(self): return (self.fr.body.path, self.line)
    def panic(self, cond, kind, ops=()):
        d = self.I.decide(self.st, cond)
        if d is False: return False
        self.st.eff.append(('panic', BOOL(True) if d else cond, kind, self.site(), tuple(ops)))
        if d: return True
        self.I.assume(self.st, cond, False)
        return False
    def op(self, name, *args, res=None):
        self.st.eff.append(('op', name, tuple(args), res, self.site()))
    def callv(self, f, args): return self.I.call_value(self.fr, self.st, f, args, None, self.line)

def diffpaths(a, b, path=()):
    if a is b: return []
    def items(x):
        if x.op == 'with': return x.a[0], dict(x.a[1])
        return x, {}
    if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        out = []
        for i in range(2, len(a.a)):
            out += diffpaths(a.a[i], b.a[i], path + (('f', a.a[1] if False else None, i - 2),))
        return out
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        out = []
        for i in range(len(a.a)): out += diffpaths(a.a[i], b.a[i], path + (('f', None, i),))
        return out
    ba, da = items(a); bb, db = items(b)
    if ba is bb and (da or db):
        out = []
        for k in set(da) | set(db):
            x = da.get(k); y = db.get(k)
            if x is y: continue
            if k[0] == 'i' : return [path]
            out += diffpaths(x if x is not None else PROJ(ba, k), y if y is not None else PROJ(ba, k), path + (k,))
        return out
    return [path]

def bound_of(c, i):
    """c is (i < n) in canonical form -> n"""
    # canonical forms: not(Le(n, i)); Le(i, k) with constant k
    if c.op == 'not' and c.a[0].op == 'bin' and c.a[0].a[0] == 'Le' and c.a[0].a[2] is i:
        return c.a[0].a[1]
    if c.op == 'bin' and c.a[0] == 'Le' and c.a[1] is i and isint(c.a[2]): return INT(c.a[2].a[0] + 1, c.a[2].a[1])
    if c.op == 'not' and c.a[0].op == 'bin' and c.a[0].a[0] == 'Eq':
        for x, y in ((c.a[0].a[1], c.a[0].a[2]), (c.a[0].a[2], c.a[0].a[1])):
            if x is i: return y
    return None
def phi_free(n, phis):
    ps = {p[1] for p in phis}
    return any(x in ps for x in walk(n))

def map_eff(eff, f):
    def m(x):
        if isinstance(x, N): return f(x)
        if isinstance(x, tuple): return tuple(m(y) for y in x)
        return x
    out = []
    for e in eff:
        k = e[0]
        if k == 'if': out.append(('if', f(e[1]), map_eff(e[2], f), map_eff(e[3], f), e[4]))
        elif k == 'call': out.append(('call', e[1], e[2], map_eff(e[3], f), e[4]))
        elif k == 'loop':
            L0 = e[1]; L = Loop()
            L.id, L.site, L.exits, L.exit_eff = L0.id, L0.site, L0.exits, L0.exit_eff
            L.phis = [[p[0], p[1], f(p[2]), f(p[3])] for p in L0.phis]
            L.eff = map_eff(L0.eff, f); L.i = L0.i
            L.n = f(L0.n) if L0.n is not None else None
            L.cond = f(L0.cond) if L0.cond is not None else None
            L.node = f(L0.node) if L0.node is not None else None
            out.append(('loop', L))
        elif k in ('op', 'fail', 'panic', 'guard', 'panicpath', 'havoc'):
            out.append(tuple(m(x) if i else x for i, x in enumerate(e)))
        else: out.append(e)
    return out

def show_eff(eff, ind=0, fails=True):
    out = []
    p = '  ' * ind
    for e in eff:
        k = e[0]
        if k == 'op': out.append('%s%s(%s)%s' % (p, e[1], ', '.join(show(x, 7) for x in e[2]), ' -> ' + show(e[3], 3) if e[3] is not None else ''))
        elif k == 'if':
            out.append('%sif %s {' % (p, show(e[1], 7))); out += show_eff(e[2], ind + 1, fails)
            if e[3]: out.append(p + '} else {'); out += show_eff(e[3], ind + 1, fails)
            out.append(p + '}')
        elif k == 'loop':
            L = e[1]
            out.append('%sloop#%d i=%s n=%s phis=[%s] {' % (p, L.id, show(L.i, 3) if L.i else None, show(L.n, 5) if L.n is not None else None,
                       '; '.join('%s: %s -> %s' % (show(q[1], 3), show(q[2], 4), show(q[3], 5)) for q in L.phis)))
            out += show_eff(L.eff, ind + 1, fails); out.append(p + '}')
        elif k == 'call':
            out.append('%scall %s {' % (p, e[1].split('::')[-1])); out += show_eff(e[3], ind + 1, fails); out.append(p + '}')
        elif k == 'panic':
            if fails: out.append('%sPANIC[%s] if %s @%s' % (p, e[2], show(e[1], 6), e[3][1]))
        elif k == 'fail':
            if fails: out.append('%sfail if %s (%s)' % (p, show(e[1], 6), e[3]))
        else: out.append('%s%s' % (p, ' '.join(show(x, 6) if isinstance(x, N) else str(x) for x in e[:3])))
    return out
