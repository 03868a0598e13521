"""Path walks over MIR: what becomes of every Result a call produced."""
from . import terms as T
from .facts import succs, ty_str

RES = 'core::result::Result'; OPT = 'core::option::Option'; CF = 'core::ops::control_flow::ControlFlow'
NEVER = ('core::convert::Infallible',)

def callee(t):
    f = t[1]
    if f[0] != 'fn': return None, None
    return f[1].get('res') or f[1]['fn'], f[1]['name']

def restype(t):
    """(wrapper, E) when t is a fallible Result, or an Option of one"""
    if t is None or t[0] != 'adt': return None
    if t[1] == RES:
        e = t[2][1]
        if e[0] == 'never' or (e[0] == 'adt' and e[1] in NEVER): return None
        return ('res', e)
    if t[1] == OPT and t[2]:
        r = restype(t[2][0])
        if r and r[0] == 'res': return ('opt', r[1])
    return None

FOLLOW = {'map', 'and_then', 'and', 'inspect', 'inspect_err', 'copied', 'cloned', 'transpose', 'from_residual', 'flatten', 'into', 'from', 'cast'}
SWALLOW = {'ok', 'err', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'map_or_else', 'is_ok_and', 'is_err_and', 'iter', 'into_iter', 'iter_mut', 'drop', 'forget', 'is_none_or', 'is_some_and'}
PANICS = {'unwrap', 'expect', 'unwrap_err', 'expect_err'}

class Flow:
    def __init__(self, F, b, bad, kinds=None, only=None):
        self.F, self.b, self.bad, self.kinds, self.only = F, b, bad, kinds, only
    def closure_body(self, a):
        """body of a closure or function item given as an argument"""
        ty = None
        if a[0] in ('cp', 'mv') and not a[1][1]: ty = self.b.locals[a[1][0]]
        if a[0] == 'c' and a[1][0] == 'zst': ty = a[1][1]
        if a[0] == 'fn':
            return self.F.bodies.get(a[1].get('res') or a[1]['fn'])
        if ty and ty[0] == 'closure': return self.F.bodies.get(ty[1])
        return None
    def producers(self):
        for i, (st, t, cl) in enumerate(self.b.blocks):
            if cl or t[0] != 'call' or t[4] is None: continue
            d = t[3]
            ty = self.b.locals[d[0]] if not d[1] else None
            if ty is None:
                last = d[1][-1]
                ty = last[2] if last[0] == 'f' else None
            r = restype(ty)
            p, n = callee(t)
            if r is None or (self.only and not self.only(r[1])): continue
            if n in ('branch', 'from_residual'): continue
            yield i, t, r
    def run(self):
        n = 0
        for i, t, (k, e) in self.producers():
            n += 1
            self.src = (callee(t)[1] or 'a call', t[-1])
            self.etype = e
            self.seen = set()
            d = t[3]
            if d[1]:
                if d[0] == 0: continue
                self.report('stores the result of %s away unchecked', ); continue
            if d[0] == 0: continue
            self.walk(t[4], 0, d[0], k, {}, {}, False)
        return n
    def report(self, what):
        nm, line = self.src
        self.bad('%s:%s' % (self.b.path, nm), '%s (%s:%s) ' % (self.b.path, self.b.file.split('/')[-1], line) + what % nm)
    def walk(self, blk, i, tok, kind, refs, bools, err):
        """follow the token from statement i of blk; refs: locals borrowing it; bools: local -> value meaning failure"""
        key = (blk, i, tok, kind, err, tuple(sorted(refs)), tuple(sorted(bools.items())))
        if key in self.seen: return
        self.seen.add(key)
        st, t, _ = self.b.blocks[blk]
        dv = None
        for s in st[i:]:
            i += 1
            if s[0] != '=': continue
            pl, rv = s[1], s[2]
            if rv[0] == 'use' and rv[1][0] in ('cp', 'mv') and rv[1][1][0] == tok:
                proj = rv[1][1][1]
                if not proj:
                    if pl[0] == 0: return
                    if pl[1]: return self.report('stores the result of %s away unchecked')
                    return self.walk(blk, i, pl[0], kind, refs, bools, err)
                if kind == 'opt' and proj[0] == ('d', 1) and len(proj) == 2:
                    if pl[0] == 0: return
                    return self.walk(blk, i, pl[0], 'res', refs, bools, err)
            elif rv[0] == 'use' and rv[1][0] in ('cp', 'mv') and rv[1][1][0] in bools and not rv[1][1][1] and not pl[1]:
                bools = dict(bools); bools[pl[0]] = bools[rv[1][1][0]]
            elif rv[0] == 'ref' and rv[2][0] == tok and not rv[2][1] and not pl[1]:
                refs = dict(refs); refs[pl[0]] = 1
            elif rv[0] == 'ref' and rv[2][0] in refs and not pl[1] and rv[2][1] == ('*',):
                refs = dict(refs); refs[pl[0]] = 1
            elif rv[0] == 'un' and rv[1] == 'Not' and rv[2][0] in ('cp', 'mv') and rv[2][1][0] in bools and not pl[1]:
                bools = dict(bools); bools[pl[0]] = not bools[rv[2][1][0]]
            elif rv[0] == 'discr' and rv[1][0] == tok:
                proj = rv[1][1]
                if not proj: dv = (pl[0], kind)
                elif kind == 'opt' and len(proj) == 2: dv = (pl[0], 'res')
            elif rv[0] == 'agg' and any(o[0] in ('cp', 'mv') and o[1] == (tok, ()) for o in rv[2]):
                if pl[0] == 0: return
                if rv[1][0] == 'adt' and rv[1][1] == OPT and not pl[1]: return self.walk(blk, i, pl[0], 'opt', refs, bools, err)
                if rv[1][0] == 'tuple' and not pl[1]: return self.walk_tuple(blk, i, pl[0], [k for k, o in enumerate(rv[2]) if o[0] in ('cp', 'mv') and o[1] == (tok, ())][0], kind)
                return self.report('stores the result of %s away unchecked')
            elif pl == (tok, ()):
                if err: return
                return self.report('overwrites the result of %s without looking at it')
        k = t[0]
        go = lambda nb: self.walk(nb, 0, tok, kind, refs, bools, err)
        if k == 'call':
            p, n = callee(t)
            own = [j for j, a in enumerate(t[2]) if a[0] in ('cp', 'mv') and a[1] == (tok, ())]
            if own:
                if n == 'branch': return
                if n in PANICS or t[4] is None: return
                d = t[3]
                dty = self.b.locals[d[0]]
                if n == 'map_err' or n == 'or_else' or n == 'or' or n == 'ok_or' or n == 'ok_or_else':
                    a = t[2][1] if len(t[2]) > 1 else None
                    if n == 'or': 
                        v = self.errlocal(a)
                        if v is None: return self.report('replaces a failure of %s by success')
                        self.kindcheck(v)
                    else:
                        cb = self.closure_body(a)
                        if n == 'or_else':
                            if cb is None or not self.alwayserr(cb): return self.report('replaces a failure of %s by success')
                        if cb is not None and cb.crate == self.b.crate:
                            for v in variants(cb): self.kindcheck(v)
                    if d[0] == 0: return
                    return self.walk(t[4], 0, d[0], restype(dty)[0] if restype(dty) else 'res', refs, bools, err)
                if n == 'unwrap_or_else' and diverges(self.closure_body(t[2][1])): return
                if n == 'unwrap_or' and saturates(self.etype, t[2][1]): return
                if n in SWALLOW and p.startswith(('core::', '<core::', 'alloc::', 'std::')): return self.report('discards a failure of %s (' + n + ')')
                if restype(dty) is not None or d[0] == 0:
                    if d[0] == 0: return
                    return self.walk(t[4], 0, d[0], restype(dty)[0], refs, bools, err)
                return self.report('hands the result of %s to ' + str(n) + ', which does not return it')
            if any(a[0] in ('cp', 'mv') and a[1][0] in refs and not a[1][1] for a in t[2]):
                if n in ('is_ok', 'is_err', 'is_some', 'is_none') and not t[3][1]:
                    bools = dict(bools)
                    if n in ('is_ok', 'is_err') and kind == 'res': bools[t[3][0]] = (n == 'is_err')
            if t[3] == (tok, ()): return self.report('overwrites the result of %s without looking at it') if not err else None
            if t[4] is None: return
            return self.walk(t[4], 0, tok, kind, refs, bools, err)
        if k == 'switch':
            o = t[1]
            if o[0] in ('cp', 'mv') and dv and o[1] == (dv[0], ()):
                arms = list(t[2]); vals = {v for v, _ in arms}
                other = [v for v in (0, 1) if v not in vals]
                if len(other): arms.append((other[0], t[3]))
                for v, nb in arms:
                    if v > 1: continue
                    if dv[1] == 'opt':
                        if v == 1: self.walk(nb, 0, tok, kind, refs, bools, err)
                    elif v == 1: self.errarm(nb, tok)
                return
            if o[0] in ('cp', 'mv') and o[1][0] in bools and not o[1][1]:
                bad = bools[o[1][0]]
                arms = [(bool(v), nb) for v, nb in t[2]]
                have = {v for v, _ in arms}
                for v in (False, True):
                    if v not in have: arms.append((v, t[3]))
                for v, nb in arms:
                    if v == bad: self.errarm(nb, tok)
                return
            for nb in {nb for _, nb in t[2]} | {t[3]}: go(nb)
            return
        if k == 'drop':
            if t[1] == (tok, ()): return self.report('drops the result of %s')
            return go(t[2])
        if k == 'return': return self.report('ignores the result of %s')
        for nb in succs(t): go(nb)
    def walk_tuple(self, blk, i, loc, idx, kind):
        """a tuple holding the token: wait for its component to be moved or matched"""
        st, t, _ = self.b.blocks[blk]
        pre = ('f', idx)
        for j, s in enumerate(st[i:]):
            if s[0] != '=': continue
            rv = s[2]
            if rv[0] == 'use' and rv[1][0] in ('cp', 'mv') and rv[1][1][0] == loc and len(rv[1][1][1]) == 1 and rv[1][1][1][0][:2] == pre:
                return self.walk(blk, i + j + 1, s[1][0], kind, {}, {}, False)
            if rv[0] == 'discr' and rv[1][0] == loc and len(rv[1][1]) == 1 and rv[1][1][0][:2] == pre and t[0] == 'switch' and t[1][0] in ('cp', 'mv') and t[1][1] == s[1]:
                arms = list(t[2]); vals = {v for v, _ in arms}
                other = [v for v in (0, 1) if v not in vals]
                if other: arms.append((other[0], t[3]))
                for v, nb in arms:
                    if v == 1: self.errarm(nb, -1)
                return
        self.report('stores the result of %s away unchecked')
    def errlocal(self, a):
        """variant of the ZserioError inside an Err(..) operand, '?' when unknown, None when it may be Ok"""
        if a is None or a[0] not in ('cp', 'mv') or a[1][1]:
            return None
        loc = a[1][0]; got = None
        for st, t, cl in self.b.blocks:
            for s in st:
                if s[0] == '=' and s[1] == (loc, ()):
                    rv = s[2]
                    if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == RES:
                        if rv[1][2] != 1: return None
                        got = self.errvariant(rv[2][0]) or '?'
                    elif rv[0] == 'use': return self.errlocal(rv[1])
                    else: return None
            if t[0] == 'call' and t[3] == (loc, ()): return None
        return got
    def errvariant(self, o):
        if o[0] not in ('cp', 'mv') or o[1][1]: return None
        loc = o[1][0]
        for st, t, cl in self.b.blocks:
            for s in st:
                if s[0] == '=' and s[1] == (loc, ()) and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].endswith('::ZserioError'): return s[2][1][2]
                if s[0] == '=' and s[1] == (loc, ()) and s[2][0] == 'use': return self.errvariant(s[2][1])
        return None
    def alwayserr(self, cb):
        out = []
        for st, t, cl in cb.blocks:
            for s in st:
                if s[0] == '=' and s[1] == (0, ()):
                    out.append(s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == RES and s[2][1][2] == 1)
            if t[0] == 'call' and t[3] == (0, ()): out.append(callee(t)[1] == 'from_residual')
        return bool(out) and all(out)
    def kindcheck(self, v):
        if self.kinds: 
            m = self.kinds(self.etype, v)
            if m: self.report('turns a failure of %s into ' + m)
    def errarm(self, blk, tok):
        """every path from here must return a failure"""
        rty = self.b.locals[0]
        start = (blk, None, ())
        q = [start]; seen = set()
        while q:
            cur = q.pop()
            if cur in seen: continue
            seen.add(cur)
            b, z, errs = cur
            st, t, _ = self.b.blocks[b]
            errs = set(errs)
            for s in st:
                if s[0] == 'setd' and s[1] == (0, ()): z = 'err' if s[2] == 1 else 'ok'
                if s[0] != '=': continue
                pl, rv = s[1], s[2]
                cls = None
                if rv[0] == 'agg' and rv[1][0] == 'adt':
                    if rv[1][1] == RES: cls = 'err' if rv[1][2] == 1 else 'ok'
                    elif rv[1][1] == OPT and rv[1][2] == 1 and any(o[0] in ('cp', 'mv') and o[1][0] in errs for o in rv[2]): cls = 'err'
                    elif rv[1][1].endswith('::ZserioError'): self.kindcheck(rv[1][2])
                elif rv[0] == 'use' and rv[1][0] in ('cp', 'mv') and not rv[1][1][1]:
                    cls = 'err' if (rv[1][1][0] == tok or rv[1][1][0] in errs) else 'ok'
                else: cls = 'ok'
                if pl == (0, ()): z = cls
                elif not pl[1]:
                    if cls == 'err': errs.add(pl[0])
                    else: errs.discard(pl[0])
            if t[0] == 'return':
                if z != 'err' : return self.report('carries on after a failure of %s')
                continue
            if t[0] == 'call':
                p, n = callee(t)
                e = n == 'from_residual' or (n in ('map_err', 'from', 'into') and any(a[0] in ('cp', 'mv') and not a[1][1] and (a[1][0] == tok or a[1][0] in errs) for a in t[2]))
                if n in PANICS and any(a[0] in ('cp', 'mv') and not a[1][1] and (a[1][0] == tok or a[1][0] in errs) for a in t[2]): continue
                if t[3] == (0, ()): z = 'err' if e else 'ok'
                elif not t[3][1]:
                    if e: errs.add(t[3][0])
                    else: errs.discard(t[3][0])
            for nb in succs(t): q.append((nb, z, tuple(sorted(errs))))

def diverges(cb):
    """the closure never returns"""
    if cb is None: return False
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        if cb.blocks[n][1][0] == 'return': return False
        todo += succs(cb.blocks[n][1])
    return True

def saturates(e, o):
    """try_from(x).unwrap_or(MAX): an integer out of range becomes the largest one, which the codec checks judge"""
    return e is not None and e[0] == 'adt' and e[1].endswith('::TryFromIntError') and o[0] == 'c' and o[1][0] == 'int' and o[1][1] == (1 << T.WIDTH[o[1][2][1]]) - 1 and o[1][2][1][0] == 'u'

def variants(b):
    for st, t, cl in b.blocks:
        for s in st:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].endswith('::ZserioError'): yield s[2][1][2]

def fnitems(b):
    """function items used as values (not as callees)"""
    def ops(rv):
        for x in rv[1:]:
            if isinstance(x, tuple) and x and x[0] in ('fn', 'c'): yield x
            elif isinstance(x, tuple) and x and isinstance(x[0], tuple):
                for y in x:
                    if y and y[0] in ('fn', 'c'): yield y
    for st, t, cl in b.blocks:
        if cl: continue
        for s in st:
            if s[0] == '=':
                for o in ops(s[2]):
                    if o[0] == 'fn': yield o[1], s[3]
        if t[0] == 'call':
            for o in t[2]:
                if o[0] == 'fn': yield o[1], t[-1]

def errflow(F, bodies, bad, kinds=None, only=None):
    n = 0
    for b in bodies:
        n += Flow(F, b, bad, kinds, only).run()
        for f, line in fnitems(b):
            p = f.get('res') or f['fn']
            if p.startswith('core::result::Result') and f['name'] in SWALLOW:
                bad('%s:%s' % (b.path, f['name']), '%s (%s:%s) discards failures through %s' % (b.path, b.file.split('/')[-1], line, f['name']))
        for i, (st, t, cl) in enumerate(b.blocks):
            if cl or t[0] != 'call' or t[1][0] != 'fn': continue
            p, nm = callee(t)
            if nm in ('flatten', 'flat_map', 'filter_map', 'count', 'last') and 'iter' in p:
                for a in t[1][1]['args']:
                    for cb in closures_in(F, a):
                        if restype(cb.locals[0]): bad('%s:%s' % (b.path, nm), '%s (%s:%s) drops failures of the closure through %s' % (b.path, b.file.split('/')[-1], t[-1], nm))
    return n

def closures_in(F, t):
    if t is None: return
    if t[0] == 'closure':
        b = F.bodies.get(t[1])
        if b is not None: yield b
    elif t[0] == 'adt':
        for x in t[2]: yield from closures_in(F, x)
    elif t[0] in ('ref', 'ptr'): yield from closures_in(F, t[2])
    elif t[0] == 'tuple':
        for x in t[1]: yield from closures_in(F, x)
