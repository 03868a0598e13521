"""Dataflow over the schema compiler's MIR: call graph, value provenance, iteration order, effects."""
import re
from .facts import ty_str, succs
from .mirflow import callee

def genbodies(F):
    """hand-written code of the schema compiler (library and command line), without the ANTLR output and derives"""
    for b in F.bodies.values():
        if b.crate in ('zserio_rs_build', 'genmain') and not re.search(r'/parser/gen/zserio\w+\.rs$', b.file): yield b

def short(p): return p.replace('zserio_rs_build::internal::', '')
def where(b, line): return '%s (%s:%s)' % (short(b.path), b.file.split('/')[-1], line)

def bodyof(F, t):
    p, n = callee(t)
    return F.bodies.get(p) if p else None

def calls(b):
    for i, (st, t, cl) in enumerate(b.blocks):
        if t[0] == 'call' and not cl: yield i, t

def tys(t):
    """every type inside t"""
    if t is None: return
    yield t
    k = t[0]
    if k == 'adt' or k == 'closure':
        for x in t[2]: yield from tys(x)
    elif k in ('ref', 'ptr'): yield from tys(t[2])
    elif k in ('array', 'slice'): yield from tys(t[1])
    elif k == 'tuple':
        for x in t[1]: yield from tys(x)

def closures(b):
    """bodies of the closures built in b"""
    for st, t, cl in b.blocks:
        for s in st:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure': yield s[2][1][1]

def reach(F, b, seen=None):
    """bodies of the compiler reachable from b"""
    seen = {} if seen is None else seen
    todo = [b]
    while todo:
        x = todo.pop()
        if x.path in seen: continue
        seen[x.path] = x
        for i, t in calls(x):
            y = bodyof(F, t)
            if y is not None: todo.append(y)
            for a in t[2]:
                if a[0] == 'fn':
                    y = F.bodies.get(a[1].get('res') or a[1]['fn'])
                    if y is not None: todo.append(y)
        for c in closures(x):
            if c in F.bodies: todo.append(F.bodies[c])
    return seen

class Defs:
    """flow-insensitive definitions and uses of the locals of one body"""
    def __init__(self, b):
        self.b = b; self.defs = {}
        for i, (st, t, cl) in enumerate(b.blocks):
            if cl: continue
            for s in st:
                if s[0] == '=': self.defs.setdefault(s[1][0], []).append((s[1][1], 'rv', s[2], s[3]))
            if t[0] == 'call': self.defs.setdefault(t[3][0], []).append((t[3][1], 'call', t, t[-1]))
    def chain(self, loc):
        """locals along the chain of references and moves that ends at loc"""
        out = [loc]
        while len(out) < 22:
            loc = out[-1]
            if loc <= self.b.argc and loc > 0: break
            ds = [d for d in self.defs.get(loc, []) if not d[0]]
            if len(ds) != 1: break
            pr, k, x, _ = ds[0]
            if k == 'rv' and x[0] == 'ref': n = x[2][0]
            elif k == 'rv' and x[0] == 'use' and x[1][0] in ('cp', 'mv'): n = x[1][1][0]
            elif k == 'rv' and x[0] == 'cast' and x[2][0] in ('cp', 'mv'): n = x[2][1][0]
            elif k == 'call' and callee(x)[1] in ('deref', 'deref_mut', 'borrow_mut', 'borrow', 'as_mut', 'as_ref', 'index_mut', 'index', 'get_mut', 'iter_mut', 'by_ref', 'unwrap') and x[2] and x[2][0][0] in ('cp', 'mv'):
                n = x[2][0][1][0]
            else: break
            if n in out: break
            out.append(n)
        return out
    def base(self, loc): return self.chain(loc)[-1]

def loop(b, i):
    """blocks of the loop around block i (its strongly connected component); empty when not in a loop"""
    fwd, todo = set(), [n for n in succs(b.blocks[i][1])]
    while todo:
        n = todo.pop()
        if n in fwd or b.blocks[n][2]: continue
        fwd.add(n); todo += succs(b.blocks[n][1])
    if i not in fwd: return set()
    pred = {}
    for n in fwd | {i}:
        for m in succs(b.blocks[n][1]): pred.setdefault(m, []).append(n)
    back, todo = set(), [i]
    while todo:
        n = todo.pop()
        if n in back: continue
        back.add(n); todo += pred.get(n, [])
    return back & (fwd | {i})

def operands(rv):
    k = rv[0]
    if k == 'use': yield rv[1]
    elif k == 'repeat': yield rv[1]
    elif k == 'cast': yield rv[2]
    elif k == 'bin': yield rv[2]; yield rv[3]
    elif k == 'un': yield rv[2]
    elif k == 'agg':
        for o in rv[2]: yield o
    elif k in ('ref', 'discr'): yield ('cp', rv[2] if k == 'ref' else rv[1])

def taint(b, starts, defs=None, stop=()):
    """locals that data from the locals in `starts` reaches (assignments, call results, pushes into a container)"""
    defs = defs or Defs(b)
    T = set(starts)
    ch = True
    while ch:
        ch = False
        def add(l):
            nonlocal ch
            if l not in T: T.add(l); ch = True
        for st, t, cl in b.blocks:
            if cl: continue
            for s in st:
                if s[0] != '=': continue
                if any(o[0] in ('cp', 'mv') and o[1][0] in T for o in operands(s[2])):
                    add(s[1][0])
                    if s[1][1]: add(defs.base(s[1][0]))
            if t[0] == 'call' and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in t[2]):
                if callee(t)[1] in stop: continue
                add(t[3][0])
                for o in t[2]:
                    if o[0] in ('cp', 'mv') and not o[1][1]:
                        ty = b.locals[o[1][0]]
                        if ty and ty[0] == 'ref' and ty[1]:
                            add(o[1][0]); add(defs.base(o[1][0]))
    return T

# ---- where strings and paths come from ---------------------------------------------------------------------------------

def fmtpieces(bs):
    """literal pieces of a compiled format string"""
    i, out = 0, []
    while i < len(bs) and bs[i]:
        c = bs[i]; i += 1
        if c < 0x80: out.append(bytes(bs[i:i + c])); i += c
        elif c == 0x80:
            n = bs[i] | bs[i + 1] << 8; out.append(bytes(bs[i + 2:i + 2 + n])); i += 2 + n
        else: i += (4 if c & 1 else 0) + (2 if c & 2 else 0) + (2 if c & 4 else 0) + (2 if c & 8 else 0)
    return [p.decode('utf-8', 'replace') for p in out]

def conststr(o):
    """text of a constant operand, as a list of pieces, or None"""
    if o[0] != 'c': return None
    v, ty = o[1], o[2]
    if v[0] == 'str': return [v[1]]
    if v[0] == 'int' and ty == ('char',): return [chr(v[1])]
    if v[0] == 'refto': v = v[1]
    if v[0] == 'array' and v[1] and all(x[0] == 'int' and x[2] == ('int', 'u8') for x in v[1]):
        return fmtpieces([x[1] for x in v[1]])
    return None

CUT = {'split', 'rsplit', 'splitn', 'rsplitn', 'split_once', 'rsplit_once', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'contains', 'starts_with', 'ends_with', 'find', 'rfind', 'split_terminator', 'eq', 'ne', 'expect', 'get', 'contains_key'}
PATHOPS = {'parent', 'pop', 'with_file_name', 'set_file_name', 'components', 'ancestors', 'iter', 'strip_prefix', 'read_link', 'canonicalize'}

class Origins:
    """flow-insensitive backward slices of strings and paths, through calls of the compiler's own functions up to its parameters"""
    def __init__(self, F, bodies):
        self.F = F; self.bodies = {b.path: b for b in bodies}; self.sites = {}; self._d = {}; self._s = {}; self.stop = set()
        for b in bodies:
            for i, t in calls(b):
                p, n = callee(t)
                if p in self.bodies: self.sites.setdefault(p, []).append((b, t))
    def D(self, b):
        if b.path not in self._d: self._d[b.path] = Defs(b)
        return self._d[b.path]
    def operand(self, b, o, seen=None, head=False):
        """atoms: ('const', piece), ('field', adt, name), ('param', body, index), ('call', path), ('op', path operation)"""
        seen = set() if seen is None else seen
        c = conststr(o)
        if c is not None: return {('const', x) for x in c}
        if o[0] == 'c': return set()
        if o[0] == 'promoted': return set()
        if o[0] in ('cp', 'mv'): return self.place(b, o[1], seen, head)
        return {('call', str(o[0]))}
    def place(self, b, pl, seen, head):
        loc, pr = pl
        t = b.locals[loc]; out = None
        for e in pr:
            if e == '*': t = t[2] if t and t[0] in ('ref', 'ptr') else (t[2][0] if t and t[0] == 'adt' and t[2] else None)
            elif e[0] == 'f':
                if t and t[0] == 'adt' and t[1] in self.F.adts and self.F.adts[t[1]].get('crate') in ('zserio_rs_build', 'genmain'):
                    out = ('field', t[1], self.F.adts[t[1]]['variants'][0]['fields'][e[1]][0])
                t = e[2]
        if out is not None: return {out}
        return self.local(b, loc, seen, head)
    def local(self, b, loc, seen, head=False):
        if (b.path, loc, head) in seen: return set()
        seen.add((b.path, loc, head))
        out = set(); D = self.D(b)
        if 0 < loc <= b.argc: return {('param', b.path, loc)}
        for pr, k, x, line in D.defs.get(loc, []):
            if k == 'rv':
                if x[0] == 'use' and x[1][0] == 'promoted': continue
                for o in operands(x): out |= self.operand(b, o, seen, head)
            else: out |= self.call(b, x, seen, head)
        if not head:
            for i, t in calls(b):          # text pushed into it
                for j, o in enumerate(t[2]):
                    if o[0] in ('cp', 'mv') and not o[1][1] and b.locals[o[1][0]] and b.locals[o[1][0]][0] == 'ref' and b.locals[o[1][0]][1] and D.base(o[1][0]) == loc and o[1][0] != loc:
                        n = callee(t)[1]
                        if n in PATHOPS: out.add(('op', n))
                        if n in ('next', 'write_all', 'flush', 'drop', 'deref_mut', 'iter_mut', 'borrow_mut'): continue
                        for q, a in enumerate(t[2]):
                            if q != j: out |= self.operand(b, a, seen)
        else:
            for i, t in calls(b):
                for j, o in enumerate(t[2][:1]):
                    if o[0] in ('cp', 'mv') and not o[1][1] and b.locals[o[1][0]] and b.locals[o[1][0]][0] == 'ref' and b.locals[o[1][0]][1] and D.base(o[1][0]) == loc and callee(t)[1] in PATHOPS: out.add(('op', callee(t)[1]))
        return out
    def call(self, b, t, seen, head):
        p, n = callee(t)
        if p is None: return {('call', 'pointer')}
        if p in self.bodies and self.bodies[p].kind != 'closure':
            out = set()
            for a in self.summary(p, head):
                if a[0] == 'param' and a[1] == p: out |= self.operand(b, t[2][a[2] - 1], seen, head) if a[2] - 1 < len(t[2]) else set()
                else: out.add(a)
            return out
        args = t[2]
        if n in PATHOPS: return {('op', n)} | (self.operand(b, args[0], seen, head) if args else set())
        if not args: return set() if n in ('new', 'default') else {('call', p)}
        if not p.startswith(('core::', 'alloc::', 'std::', '<', 'stringcase::', 'itertools::', 'walkdir::', 'syn::')) : return {('call', p)}
        if p.startswith(('std::fs::', 'std::env::', 'std::process::', 'std::io::')): return {('call', p)}
        fns = {j: self.fnbody(b, a) for j, a in enumerate(args)}
        if head:
            k = 1 if n in ('fold', 'try_fold', 'map_or') and len(args) > 1 else 0
            out = self.operand(b, args[k], seen, True)
            for j, f in fns.items():                      # what the closure makes of it
                if f is not None and n in ('fold', 'try_fold', 'map', 'map_or', 'and_then', 'flat_map', 'filter_map', 'unwrap_or_else', 'map_or_else', 'or_else'):
                    out = self.applied(f, {2 if f.kind == 'closure' else 1: out}, b, args[j], seen, True) | (out if 'fold' in n or n.startswith('unwrap') else set())
            return out
        out = set()
        for j, a in enumerate(args):
            if j and n in CUT: break
            if fns[j] is None: out |= self.operand(b, a, seen)
        for j, f in fns.items():
            if f is None: continue
            every = {i: out for i in range(1, f.argc + 1)}
            out = out | self.applied(f, every, b, args[j], seen, False)
        return out
    def fnbody(self, b, a):
        """body of a closure or function item passed as an argument"""
        if a[0] == 'fn': return self.bodies.get(a[1].get('res') or a[1]['fn'])
        ty = a[1][1] if a[0] == 'c' and a[1][0] == 'zst' else b.locals[a[1][0]] if a[0] in ('cp', 'mv') and not a[1][1] else None
        if ty is not None and ty[0] == 'ref': ty = ty[2]
        return self.bodies.get(ty[1]) if ty is not None and ty[0] == 'closure' else None
    def applied(self, f, given, b, a, seen, head):
        """origins of the value of f when its parameters come from `given`; captured variables come from the closure operand"""
        out = set()
        for x in self.summary(f.path, head):
            if x[0] == 'param' and x[1] == f.path:
                if f.kind == 'closure' and x[2] == 1: out |= self.operand(b, a, seen, head)
                else: out |= given.get(x[2], set())
            else: out.add(x)
        return out
    def summary(self, p, head):
        """origins of the value a function returns, in terms of its parameters"""
        k = (p, head)
        if k not in self._s:
            self._s[k] = set()
            self._s[k] = self.local(self.bodies[p], 0, set(), head)
        return self._s[k]
    def lift(self, atoms, head=False):
        """replaces parameters by what the callers pass, up to the functions nobody calls"""
        out, seen, todo = set(), set(), list(atoms)
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            if a[0] != 'param' or a in self.stop or self.bodies[a[1]].kind == 'closure' or not self.sites.get(a[1]): out.add(a); continue
            for cb, t in self.sites[a[1]]:
                if a[2] - 1 < len(t[2]): todo += self.operand(cb, t[2][a[2] - 1], None, head)
        return out
