"""Must-flow over MIR: is a value carried to the result of a function on every path, element by element through loops?"""
from .facts import succs
from .mirflow import callee
from .effects import Defs, calls, operands, tys

DROPPING = {'filter', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'filter_map', 'map_while', 'find', 'find_map', 'nth', 'first', 'last', 'get', 'split_first', 'split_last', 'dedup', 'dedup_by', 'dedup_by_key', 'unique', 'truncate', 'clear',
            'retain', 'retain_mut', 'split_off', 'drain', 'remove', 'swap_remove', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'position', 'any', 'all', 'count', 'extract_if', 'chunks_exact', 'windows', 'resize', 'at_most_one', 'exactly_one'}
LISTY = ('core::iter::', 'core::slice::', '<core::slice::', 'alloc::vec::', '<alloc::vec::', 'itertools::', '<itertools::', 'alloc::slice::', '<core::iter::', 'alloc::collections::vec_deque')
PRIMS = ('bool', 'char')
VALUELESS = ('core::fmt::', 'log::', 'core::panicking::', 'std::rt::', 'std::panicking::')

def payload(t):
    """a value of this type can hold what was in the schema (not just how many or whether)"""
    if t is None: return True
    if t == ('bool',) or t == ('tuple', ()) or t == ('int', 'usize'): return False
    if t[0] in ('ref', 'ptr'): return payload(t[2])
    return True

def reporting(b, n):
    """block n logs a warning or an error"""
    return any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == 'log::Level' and s[2][1][2] <= 1 for s in b.blocks[n][0])

def natural(b, h):
    """blocks of the natural loop with header h; empty when there is none"""
    pred = {}
    for i, (st, t, cl) in enumerate(b.blocks):
        if not cl:
            for m in succs(t): pred.setdefault(m, []).append(i)
    def dominated(u):
        seen, todo = {h}, [0]
        if h == 0: return True
        while todo:
            n = todo.pop()
            if n in seen or b.blocks[n][2]: continue
            seen.add(n); todo += succs(b.blocks[n][1])
        return u not in seen
    L = {h}; todo = []
    fwd, q = set(), list(succs(b.blocks[h][1]))
    while q:
        n = q.pop()
        if n in fwd or b.blocks[n][2]: continue
        fwd.add(n); q += succs(b.blocks[n][1])
    for u in pred.get(h, ()):
        if u == h or (u in fwd and dominated(u)): todo.append(u)
    if not todo: return set()
    while todo:
        n = todo.pop()
        if n in L: continue
        L.add(n); todo += pred.get(n, ())
    return L

def liveness(b):
    """locals whose value is used later, per block entry"""
    use, dfn = [], []
    for st, t, cl in b.blocks:
        u, d = set(), set()
        def rd(l):
            if l not in d: u.add(l)
        for s in st:
            if s[0] != '=': continue
            if s[2][0] == 'discr': rd(s[2][1][0])
            elif s[2][0] == 'ref': rd(s[2][2][0])
            for o in operands(s[2]):
                if o[0] in ('cp', 'mv'): rd(o[1][0])
            if s[1][1]: rd(s[1][0])
            else: d.add(s[1][0])
        if t[0] == 'call':
            for o in t[2]:
                if o[0] in ('cp', 'mv'): rd(o[1][0])
            if t[1][0] != 'fn':
                for o in [t[1]]:
                    if o[0] in ('cp', 'mv'): rd(o[1][0])
            if t[3][1]: rd(t[3][0])
            else: d.add(t[3][0])
        elif t[0] in ('switch', 'assert') and t[1][0] in ('cp', 'mv'): rd(t[1][1][0])
        use.append(u); dfn.append(d)
    live = [set() for _ in b.blocks]; ch = True
    while ch:
        ch = False
        for i in range(len(b.blocks) - 1, -1, -1):
            st, t, cl = b.blocks[i]
            out = set()
            for m in succs(t): out |= live[m]
            new = use[i] | (out - dfn[i])
            if new != live[i]: live[i] = new; ch = True
    return live

def returns(b):
    """blocks from which the function can return"""
    pred = {}
    for i, (st, t, cl) in enumerate(b.blocks):
        if cl: continue
        for m in succs(t): pred.setdefault(m, []).append(i)
    seen, todo = set(), [i for i, (st, t, cl) in enumerate(b.blocks) if t[0] == 'return' and not cl]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n); todo += pred.get(n, [])
    return seen

class Carry:
    """own: bodies whose parameters are followed; selfty: type of the visitor object, which is no container; ret: enum of visit results, allowed: rule -> its variants"""
    def __init__(self, F, own, selfty=None, ret=None, allowed=None):
        self.F, self.own, self.selfty, self.ret, self.allowed = F, own, selfty, ret, allowed or {}
        self._d, self._p, self._r, self._dd, self._l = {}, {}, {}, {}, {}
    def D(self, b):
        if b.path not in self._d: self._d[b.path] = Defs(b)
        return self._d[b.path]
    def alive(self, b):
        if b.path not in self._l: self._l[b.path] = liveness(b)
        return self._l[b.path]
    def ret_blocks(self, b):
        if b.path not in self._r: self._r[b.path] = returns(b)
        return self._r[b.path]
    def isself(self, b, loc):
        t = b.locals[loc]
        while t and t[0] in ('ref', 'ptr'): t = t[2]
        return t is not None and self.selfty is not None and t[0] == 'adt' and t[1] == self.selfty
    def sinks(self, b):
        out = {0}
        for i in range(1, b.argc + 1):
            t = b.locals[i]
            if self.isself(b, i): continue
            if t and t[0] == 'ref' and t[1]: out.add(i)
            if b.kind == 'closure' and i == 1: out.add(i)
        return out
    def outside(self, b, h):
        """locals defined outside of the loop around block h"""
        k = (b.path, h)
        if k not in self._dd:
            L = natural(b, h)
            out = set(range(b.argc + 1))
            for i, (st, t, cl) in enumerate(b.blocks):
                if cl or i in L: continue
                for s in st:
                    if s[0] == '=': out.add(s[1][0])
                if t[0] == 'call': out.add(t[3][0])
            self._dd[k] = out
        return self._dd[k]
    def body(self, b, o):
        if o[0] == 'fn': return self.own.get(o[1].get('res') or o[1]['fn'])
        ty = o[1][1] if o[0] == 'c' and o[1][0] == 'zst' else b.locals[o[1][0]] if o[0] in ('cp', 'mv') and not o[1][1] else None
        if ty is not None and ty[0] == 'ref': ty = ty[2]
        return self.own.get(ty[1]) if ty is not None and ty[0] == 'closure' else None
    def param(self, f, k, rule):
        """None when f carries its parameter k to its result or into its other parameters on every path"""
        key = (f.path, k, rule)
        if key not in self._p:
            self._p[key] = None
            self._p[key] = self.run(f, 0, 0, {k}, set(), rule, self.sinks(f) - {k})
        return self._p[key]
    def counted(self, b, o):
        """locals of the list when o iterates over 0..list.len()"""
        D = self.D(b); seen = set()
        while o[0] in ('cp', 'mv') and o[1][0] not in seen:
            l = D.base(o[1][0]); seen |= {o[1][0], l}
            ds = [d for d in D.defs.get(l, []) if not d[0]]
            if len(ds) != 1: break
            pr, k, x, _ = ds[0]
            if k == 'call' and callee(x)[1] == 'into_iter': o = x[2][0]; continue
            if k == 'rv' and x[0] == 'agg' and x[1][0] == 'adt' and x[1][1] == 'core::ops::range::Range' and x[2][0][0] == 'c' and x[2][0][1][:2] == ('int', 0) and x[2][1][0] in ('cp', 'mv'):
                for pr, k, y, _ in D.defs.get(D.base(x[2][1][1][0]), []):
                    if k == 'call' and callee(y)[1] == 'len' and y[2][0][0] in ('cp', 'mv'): return set(D.chain(y[2][0][1][0]))
            break
        return set()
    def run(self, b, blk, idx, holders, opts, rule=None, sinks=None):
        """None, or why the value in `holders` is not carried on some path from statement idx of block blk; opts: Options whose None means that there is nothing to carry"""
        D = self.D(b); sinks = self.sinks(b) if sinks is None else sinks
        live, alive = self.ret_blocks(b), self.alive(b)
        start = (blk, idx, frozenset(holders), frozenset(opts), frozenset(), (), frozenset())
        seen, todo, lost = set(), [start], None
        while todo:
            cur = todo.pop()
            if cur in seen: continue
            seen.add(cur)
            if len(seen) > 60000: return 'is too complicated to follow'
            n, i, H, O, B, loops, nexts = cur
            if n not in live: continue                       # the path ends in a panic
            st, t, cl = b.blocks[n]
            H = set(H); O = set(O); B = dict(B); nexts = dict(nexts)
            if reporting(b, n): continue
            dv = {}
            for s in st[i:]:
                if s[0] != '=': continue
                (l, pr), rv = s[1], s[2]
                if rv[0] == 'discr':
                    dv[l] = rv[1]; continue
                used = [o for o in operands(rv) if o[0] in ('cp', 'mv') and o[1][0] in H]
                if used and payload(b.locals[l] if not pr else None):
                    H.add(l)
                    if pr: H.update(D.chain(l))
                    if not pr and rv[0] in ('use', 'ref', 'cast') and used[0][1][0] in O and all(e == '*' for e in used[0][1][1]): O.add(l)
                    elif not pr: O.discard(l)
                    if not pr and rv[0] in ('use', 'ref', 'cast') and used[0][1][0] in nexts and not used[0][1][1]: nexts[l] = nexts[used[0][1][0]]
                elif not pr:
                    H.discard(l); O.discard(l)
                if rv[0] == 'use' and rv[1][0] in ('cp', 'mv') and not rv[1][1][1] and rv[1][1][0] in B and not pr: B[l] = B[rv[1][1][0]]
                elif rv[0] == 'un' and rv[1] == 'Not' and rv[2][0] in ('cp', 'mv') and rv[2][1][0] in B and not pr: B[l] = not B[rv[2][1][0]]
                elif not pr: B.pop(l, None)
            k = t[0]
            def go(m, loops=loops):
                A = alive[m] | sinks
                todo.append((m, 0, frozenset(H & A), frozenset(O & A), frozenset((x, y) for x, y in B.items() if x in A), loops, frozenset((x, y) for x, y in nexts.items() if x in A)))
            if k == 'return':
                if loops: return 'leaves the loop before the last element'
                if not (H & sinks): return lost or 'does not reach the result'
                continue
            if k == 'switch':
                o = t[1]
                if o[0] in ('cp', 'mv') and not o[1][1]:
                    l = o[1][0]
                    if l in B:
                        want = int(B[l]); arms = dict(t[2])
                        go(arms.get(want, t[3])); continue
                    if l in dv:
                        sl, spr = dv[l]; arms = dict(t[2])
                        if sl in nexts and not spr:
                            h, later = nexts[sl]
                            go(arms.get(0, t[3]) if later else arms.get(1, t[3])); continue
                        if sl in O and all(e == '*' for e in spr): go(arms.get(1, t[3])); continue
                        ty = b.locals[sl]
                        while ty and ty[0] == 'ref': ty = ty[2]
                        if self.ret and ty and ty[0] == 'adt' and ty[1] == self.ret and rule in self.allowed and sl in H:
                            ok = self.allowed[rule]
                            tg = {arms.get(v, t[3]) for v in ok}
                            for m in tg: go(m)
                            continue
                for m in {m for _, m in t[2]} | {t[3]}: go(m)
                continue
            if k == 'call':
                p, nm = callee(t)
                if t[4] is None: continue
                d = t[3]
                if p and p.startswith(VALUELESS): go(t[4]); continue
                hot = [j for j, o in enumerate(t[2]) if o[0] in ('cp', 'mv') and o[1][0] in H and payload(b.locals[o[1][0]])]
                prev = [x for x in loops if x[0] == n]
                counted = p and nm == 'next' and not hot and not prev and bool(self.counted(b, t[2][0]) & H)
                if (hot or prev or counted) and p and nm == 'next':
                    L = natural(b, n)
                    if L:
                        if prev:
                            new = (H - prev[0][1]) & self.outside(b, n)
                            if not new: return 'is dropped by an iteration of the loop in line %s' % t[-1]
                            loops2 = tuple(x for x in loops if x[0] != n)
                            nexts = {d[0]: (n, True)}
                            # afterwards the container stands for the elements
                            for x in loops2: new |= H & x[1]
                            H = new | {d[0]}; go(t[4], loops2)
                        else:
                            nexts[d[0]] = (n, False)
                            loops2 = loops + ((n, frozenset(H)),)
                            H.add(d[0]); go(t[4], loops2)
                        continue
                    return 'takes a single element of the list'
                if hot:
                    if nm in DROPPING and p and p.startswith(LISTY): return 'passes through %s, which drops elements' % nm
                    why = None
                    f = self.own.get(p) if p else None
                    if f is not None and f.kind != 'closure' and not self.visits(f):
                        for j in hot:
                            if not self.isself(b, t[2][j][1][0]): 
                                w = self.param(f, j + 1, rule)
                                if w: why = 'is handed to %s, where it %s' % (f.path.split('::')[-1], w)
                    for o in t[2]:
                        g = self.body(b, o)
                        if g is not None and not self.visits(g):
                            w = self.param(g, g.argc, rule)
                            if w and nm not in ('unwrap_or_else', 'expect', 'or_else', 'map_or_else'): why = 'is handed to a closure (line %s), where it %s' % (t[-1], w)
                    if why:
                        lost = why
                        if not d[1]: H.discard(d[0]); O.discard(d[0]); B.pop(d[0], None)
                        go(t[4]); continue
                    if nm in ('is_some', 'is_none') and t[2][0][1][0] in O and not d[1]: B[d[0]] = nm == 'is_some'
                    elif payload(b.locals[d[0]]):
                        H.add(d[0])
                        if d[1]: H.update(D.chain(d[0]))
                        if nm in ('as_ref', 'as_deref', 'cloned', 'map', 'clone', 'as_mut', 'deref', 'and_then', 'inspect', 'take') and t[2][0][0] in ('cp', 'mv') and t[2][0][1][0] in O: O.add(d[0])
                        else: O.discard(d[0])
                    for j, o in enumerate(t[2]):
                        if o[0] in ('cp', 'mv') and not o[1][1] and not self.isself(b, o[1][0]):
                            ty = b.locals[o[1][0]]
                            if ty and ty[0] == 'ref' and ty[1]: H.add(o[1][0]); H.update(D.chain(o[1][0]))
                elif not d[1]: H.discard(d[0]); O.discard(d[0]); B.pop(d[0], None)
                go(t[4]); continue
            for m in succs(t): go(m)
        return None
    def visits(self, f): return 'ParserVisitorCompat' in f.path and f.path.split('::')[-1].startswith('visit_')

# ---- data and control dependence -----------------------------------------------------------------------------------------

def controlled(b, n, live):
    """blocks whose execution the switch at the end of block n decides"""
    def reach(m0, without):
        seen, todo = set(), [m0]
        while todo:
            x = todo.pop()
            if x in seen or x in without or b.blocks[x][2]: continue
            seen.add(x); todo += succs(b.blocks[x][1])
        return seen
    rets = {i for i, (st, t, cl) in enumerate(b.blocks) if t[0] == 'return' and not cl}
    every = reach(n, ())
    pd = {m for m in every & live if m != n and not (reach(n, (m,)) & rets)}
    out = set()
    for m in succs(b.blocks[n][1]): out |= reach(m, pd)
    return out - {n}

def depends(C, b, starts, control=True):
    """(locals that depend on the starts, a branch on them warns or panics)"""
    D = C.D(b); live = C.ret_blocks(b)
    T = set(starts); done = set(); rep = False; ch = True
    while ch:
        ch = False
        def add(l):
            nonlocal ch
            if l not in T and not C.isself(b, l): T.add(l); ch = True
        for n, (st, t, cl) in enumerate(b.blocks):
            if cl: continue
            for s in st:
                if s[0] == '=' and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in operands(s[2])):
                    add(s[1][0])
                    if s[1][1]: [add(y) for y in D.chain(s[1][0])]
            if t[0] == 'call' and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in t[2]):
                add(t[3][0])
                for o in t[2]:
                    if o[0] in ('cp', 'mv') and not o[1][1]:
                        ty = b.locals[o[1][0]]
                        if ty and ty[0] == 'ref' and ty[1]: add(o[1][0]); [add(y) for y in D.chain(o[1][0])]
            if t[0] == 'assert' and t[1][0] in ('cp', 'mv') and t[1][1][0] in T: pass
            if control and t[0] == 'switch' and t[1][0] in ('cp', 'mv') and t[1][1][0] in T and n not in done:
                done.add(n); ch = True
                cd = controlled(b, n, live)
                if any(reporting(b, m) or (m not in live and b.blocks[m][1][0] == 'call' and b.blocks[m][1][4] is None) for m in cd): rep = True
                for m in cd:
                    st2, t2, _ = b.blocks[m]
                    for s in st2:
                        if s[0] == '=':
                            add(s[1][0])
                            if s[1][1]: [add(y) for y in D.chain(s[1][0])]
                    if t2[0] == 'call':
                        add(t2[3][0])
                        for o in t2[2]:
                            if o[0] in ('cp', 'mv') and not o[1][1]:
                                ty = b.locals[o[1][0]]
                                if ty and ty[0] == 'ref' and ty[1]: add(o[1][0]); [add(y) for y in D.chain(o[1][0])]
    return T, rep
