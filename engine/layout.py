"""The wire layout a schema prescribes, compared with the operations generated encoders perform."""
import ast
from .oracle import *
from .genrun import *

UNPACKED = ('bool', 'float16', 'float32', 'float64', 'string', 'bytes', 'extern')
FIXW = {'int8': ('i', 8), 'int16': ('i', 16), 'int32': ('i', 32), 'int64': ('i', 64), 'uint8': ('u', 8), 'uint16': ('u', 16), 'uint32': ('u', 32), 'uint64': ('u', 64)}

class Member:
    """a place in the object holding a value of a schema type, optionally an array of them"""
    __slots__ = ('name', 'term', 'ty', 'rt', 'f', 'sc')
    def __init__(s, name, term, ty, rt, f, sc): s.name, s.term, s.ty, s.rt, s.f, s.sc = name, term, ty, rt, f, sc

class Layout:
    def __init__(self, O):
        self.O, self.F, self.G, self.M, self.S = O, O.F, O.G, O.M, O.S
        self.pairs = {}      # rust type -> {inst key: inst}
        self.todo = []
        self._codec = {}; self._pack = {}; self._off = None
    # ---- pairs
    def pair(self, rt, inst, why):
        d = self.pairs.setdefault(rt, {})
        if inst.key not in d: d[inst.key] = (inst, why); self.todo.append((rt, inst))
    def roots(self):
        """pairs of top-level declarations and generated types, by module and name"""
        by = {}
        for t, g in self.G.types.items():
            seg = g.path.split('::')
            by.setdefault((tuple(norm(x) for x in seg[1:-2]), norm(seg[-1])), []).append(t)
        missing = []
        for p in self.S.packages.values():
            for d in p.decls.values():
                pk = tuple(norm(x) for x in p.name)
                if d.kind in ('struct', 'choice', 'union', 'enum', 'bitmask') and not d.tparams: inst = S.Inst(d)
                elif d.kind in ('instantiate', 'subtype'): inst = self.S.resolve(d.type, p, {}).inst
                else: continue
                if inst is None: continue
                ts = by.get((pk, norm(d.name)), [])
                if len(ts) == 1: self.pair(ts[0], inst, 'declaration %s.%s' % ('.'.join(p.name), d.name))
                elif d.kind not in ('instantiate', 'subtype'): missing.append('%s.%s' % ('.'.join(p.name), d.name))
        return missing
    def obj(self, rt, inst, why):
        if rt in self.G.types: self.pair(rt, inst, why); return None
        return '%s is not a generated type' % ty_str(rt)
    # ---- packability
    def packable(self, inst, seen=()):
        """does any value inside take part in delta packing?"""
        if inst.key in self._pack: return self._pack[inst.key]
        d = inst.decl
        if inst.key in seen: return False
        if d.kind in ('enum', 'bitmask', 'union'): r = True
        else:
            r = False
            for f in d.fields:
                t = self.S.resolve(f.type, d.pkg, self.S.env(inst))
                if self.isoffset(inst, f): continue
                if t.inst is None: r = r or t.b not in UNPACKED
                else: r = r or self.packable(t.inst, seen + (inst.key,))
        if not seen: self._pack[inst.key] = r
        return r
    def typackable(self, ty): return ty.b not in UNPACKED if ty.inst is None else self.packable(ty.inst)
    def isoffset(self, inst, f):
        if self._off is None:
            self._off = set()
            for i in self.S.instances().values():
                for g in i.decl.fields:
                    if g.offset is None: continue
                    e = g.offset
                    while e[0] in ('paren', 'idx'): e = e[1]
                    if e[0] == 'id': self._off.add((i.decl.pkg.name, i.decl.name, e[1]))
                    if e[0] == 'dot':
                        t = self.statictype(e[1], i)
                        if t is not None and t.inst is not None: self._off.add((t.inst.decl.pkg.name, t.inst.decl.name, e[2]))
        return (inst.decl.pkg.name, inst.decl.name, f.name) in self._off
    def statictype(self, e, inst):
        if e[0] in ('paren', 'idx'): return self.statictype(e[1], inst)
        if e[0] == 'id': base, n = inst, e[1]
        elif e[0] == 'dot':
            t = self.statictype(e[1], inst)
            if t is None or t.inst is None: return None
            base, n = t.inst, e[2]
        else: return None
        for pn, pt in base.decl.params:
            if pn == n: return self.S.resolve(pt, base.decl.pkg, self.S.env(base))
        for f in base.decl.fields:
            if f.name == n: return self.S.resolve(f.type, base.decl.pkg, self.S.env(base))
        return None
    # ---- codecs of array traits
    def codec(self, tr, elem):
        """wire operation an array trait performs for one element -> kind tuple (width evaluated)"""
        k = (tr, elem)
        if k in self._codec: return self._codec[k]
        from checks.runtime import TraitImpl
        path = tr.a[0] if tr.op == 'adt' else None
        for im in self.F.impl_index.get(ATRAIT, ()):
            if im['self'][1] != path: continue
            t = TraitImpl(self.F, im)
            e = t.elem
            gen = e is not None and e[0] not in ('int', 'bool', 'float', 'adt', 'str') and not isinstance(e[0], tuple)
            if e == elem or gen or path.endswith('::ObjectArrayTrait'):
                a, v = SYM('ctrait'), SYM('cvalue')
                w = t.run('write', 'write', [a, SYM('writer'), v], {('P', a): tr})
                ks = [o.a[0].a for o in stream_ops(stream(w.st.eff, SNIL()))]
                if len(ks) != 1: raise Mismatch('%s::write performs %d operations' % (t.label, len(ks)))
                r = ks[0]
                if r[0] == 'obj': r = ('obj', elem)
                self._codec[k] = r
                return r
        raise Mismatch('no array trait implementation of %s for %s' % (show(tr, 3), ty_str(elem)))

class Cmp:
    """one encoder run against one schema instance"""
    def __init__(self, L, g, inst, packed):
        self.L, self.O, self.M, self.S, self.G = L, L.O, L.O.M, L.O.S, L.O.G
        self.g, self.inst, self.packed = g, inst, packed
        self.rd = ORd(L.F, self.M); self.I = self.rd.I
        self.sc = Scope(self.O, inst, SELF(g), g.ty)
        self.errs = {}; self.nops = 0; self.nconds = 0; self.ctxof = {}; self.rejects = []; self.members = set()
        self.budget = [20000]; self.rel = None; self._roots = {}; self.cur = None; self.overflow = {}; self.seenovf = set(); self.argerrs = {}; self.nargs = 0; self.O.obl = []
        self.fn = g.fn('zserio_write_packed' if packed else 'zserio_write').path
        self.where = ''
    def err(self, key, msg):
        k = '%s:%s' % (self.where, key) if self.where else key
        self.errs.setdefault(k, '%s (%s): %s' % (self.fn, self.where, msg) if self.where else '%s: %s' % (self.fn, msg))
    # ---- states: list of (State, stream)
    def fork(self, st): return State(st.env, [], dict(st.pc))
    def gate(self, st, c):
        """-> [(state, truth)]"""
        d = self.I.decide(st, c)
        self.budget[0] -= 1
        if self.budget[0] < 0: raise Mismatch('undecided within the case budget')
        if d is not None: return [(st, d)]
        x = gatecond(self.rd, st, c)
        if x is None: raise Mismatch('condition %s cannot be decided' % show(c, 5))
        out = []
        for v in (True, False):
            s = self.fork(st); self.I.assume(s, x, v)
            out += self.gate(s, c)
        return out
    def roots(self, t):
        """top-level fields of the object a term depends on"""
        r = self._roots.get(t)
        if r is None:
            if t.op == 'fld' and t.a[0] is self.sc.term: r = frozenset((t,))
            else:
                r = set()
                def go(x):
                    if isinstance(x, N): r.update(self.roots(x))
                    elif isinstance(x, tuple):
                        for y in x: go(y)
                for x in t.a: go(x)
                r = frozenset(r)
            self._roots[t] = r
        return r
    def merge(self, states, rel=None):
        """join states at the same point, dropping facts about fields nothing ahead depends on"""
        if rel is None: rel = self.rel
        by = {}
        for st, a in states:
            a = self.settle(st, a)
            if rel is not None:
                ahead = rel | self.roots(a)
                pc = {f: v for f, v in st.pc.items() if not isinstance(f, N) or self.roots(f) & ahead}
            else: pc = st.pc
            k = (a, frozenset(pc.items()))
            if k not in by: by[k] = (State(st.env, [], pc), a)
        return list(by.values())
    def mentions(self, e):
        """members an expression mentions, functions expanded"""
        if not isinstance(e, (tuple, list)): return set()
        out = set()
        if e and e[0] in ('id', 'call'):
            n = e[1] if e[0] == 'id' else e[1][1] if e[1][0] == 'id' else None
            try: out.add(PROJ(self.sc.term, ('f', None, self.O.slot(self.sc.rt, n, self.inst))))
            except Mismatch: pass
            for fn, _, fe in self.inst.decl.funcs:
                if fn == n: out |= self.mentions(fe)
        for x in e: out |= self.mentions(x)
        return out
    def fieldrel(self, f):
        out = {PROJ(self.sc.term, ('f', None, self.O.slot(self.sc.rt, f.name, self.inst)))}
        for e in (f.cond, f.array, f.align, f.offset, f.type.args, f.type.dyn): out |= self.mentions(e)
        return out
    def settle(self, st, a):
        """take the conditions the facts decide"""
        while a.op == 'ite':
            d = self.I.decide(st, self.M.cond(a.a[0]))
            if d is None: break
            a = a.a[1] if d else a.a[2]
        return a
    def head(self, st, a):
        """resolve facts and conditions up to the next operation -> [(state, stream)]"""
        while True:
            if a.op == 'sfact':
                f = a.a[0]
                if f.op == 'forall': st.pc[f] = True
                else:
                    f = self.M.cond(f)
                    if self.I.decide(st, f) is False: return []
                    self.reject(st, f)
                    self.I.assume(st, f, True)
                a = a.a[1]; continue
            if a.op == 'ite':
                self.nconds += 1
                out = []
                for s, v in self.gate(st, self.M.cond(a.a[0])): out += self.head(s, a.a[1] if v else a.a[2])
                return out
            if a.op == 'sdead': self.rejects.append((dict(st.pc), self.where)); return []
            return [(st, a)]
    def reject(self, st, f):
        """the encoder refuses objects where f does not hold"""
        if self.I.decide(st, f) is True: return
        if any(x.op == 'app' and x.a[0] == 'ovf' or x.op == 'ovf?' or 'ovf' in x.op for x in walk(f)):
            for x in walk(f):
                if 'ovf' in x.op and x not in self.seenovf: self.seenovf.add(x); self.overflow.setdefault(self.where, show(f, 6))
            return
        m = self.cur
        if m is not None and m.ty is not None:
            s = self.fork(st)
            for c in self.obligations(m): self.I.assume(s, c, True)
            if self.I.decide(s, f) is True or infeasible(self.rd, s, NOT(f)): return
        for c in self.O.obl:
            s = self.fork(st); self.I.assume(s, c, True)
            if self.I.decide(s, f) is True: return
        self.err('rejects', 'objects are rejected unless %s, which the schema does not demand' % show(f, 6))
    def obligations(self, m):
        """what the schema demands of the object at a member"""
        out = []
        f = m.f
        if f is not None and f.array is not None:
            if f.array[0] == 'len': out.append(self.M.eq(self.M.add(self.M.of(LEN(m.term)), self.O.num(self.O.ev(f.array[1], self.sc)), -1)))
        elif m.ty.inst is not None and m.term is not None:
            for n, a, b, rt in self.args(m, m.term, m.rt, None): out += self.vfacts(a, b, rt)
        return out
    def args(self, m, t, rt, index):
        """parameters of the object t of m's type -> [(name, its value, the argument, rust type)]"""
        out = []
        d = m.ty.inst.decl
        if len(m.ty.args or ()) != len(d.params): 
            if d.params and m.ty.args is None: raise Unsupported('%s takes parameters' % d)
            return out
        sc = self.sc.at(index)
        for (n, pt), e in zip(d.params, m.ty.args or ()):
            i = self.O.slot(rt, n, m.ty.inst)
            prt = self.O.slots(rt)[i][1]
            pty = self.S.resolve(pt, d.pkg, self.S.env(m.ty.inst))
            have = PROJ(t, ('f', None, i))
            if have.ty is None and tystr(prt): have.ty = tystr(prt)
            if isinstance(e, tuple) and e[0] == 'explicit': continue
            hint = pty.inst if pty.inst is not None and pty.inst.decl.kind in ('enum', 'bitmask') else None
            v = self.O.ev(e, sc, self.inst.decl.pkg)
            out.append((n, self.O.value(have, pty, prt), v, prt))
        return out
    def leaves(self, t, rt, depth=6):
        """scalar parts of a value -> [(path, term, rust type)]"""
        ad = self.L.F.adts.get(rt[1]) if rt[0] == 'adt' else None
        if t.ty is None and tystr(rt): t.ty = tystr(rt)
        if ad and ad['kind'] == 'struct' and rt in self.G.types and depth:
            for i, x in enumerate(ad['variants'][0]['fields']):
                yield from self.leaves(PROJ(t, ('f', None, i)), x[1], depth - 1)
        else: yield t, rt
    def vfacts(self, a, b, rt):
        """conditions that say two values of a Rust type agree"""
        M = self.M
        if a.k == 'bool' or b.k == 'bool': return [M.booleq(self.O.tobool(a), self.O.tobool(b))]
        if a.k in ('num', 'enum', 'mask'):
            p = self.O.num(b)
            if a.k == 'num' and rt[0] == 'int': p = M.trunc(p, rt[1])
            return [M.eq(M.add(a.x, p, -1))]
        if a.k == 'obj' and rt in self.G.types:
            out = []
            for (x, xt), (y, _) in zip(self.leaves(a.x, rt), self.leaves(b.x, rt)):
                ad = self.L.F.adts.get(xt[1]) if xt[0] == 'adt' else None
                if xt[0] == 'int': out.append(M.eq(M.add(M.of(x), M.of(y), -1)))
                elif xt[0] == 'bool': out.append(M.booleq(M.cond(x), M.cond(y)))
                elif ad and ad['kind'] == 'enum' and xt in self.G.types: out.append(M.eq(M.add(M.of(DISCR(x, ad)), M.of(DISCR(y, ad)), -1)))
                else: out.append(mk('app', 'eq', *sorted((M.canon(x), M.canon(y)), key=lambda n: n.id), ty='bool') if x is not y else BOOL(True))
            return out
        x, y = M.canon(a.x), M.canon(b.x)
        return [BOOL(True) if x is y else mk('app', 'eq', *sorted((x, y), key=lambda n: n.id), ty='bool')]
    def checkargs(self, st, m, t, rt, index):
        """the encoder insists that the parameters of t are the schema's arguments"""
        if m.ty.inst is None or m.ty.inst.decl.kind not in ('struct', 'choice', 'union') or not m.ty.inst.decl.params: return
        self.nargs += 1
        for n, a, b, prt in self.args(m, t, rt, index):
            for c in self.vfacts(a, b, prt):
                if not self.holds(st, c): self.argerrs.setdefault((self.where, n), '%s (%s): parameter %s of the nested object is not checked against its argument: %s is not established' % (self.fn, self.where, n, show(c, 6)))
    def holds(self, st, c):
        d = self.I.decide(st, c)
        if d is not None: return d
        return infeasible(self.rd, st, NOT(c))
    def each(self, states, f):
        out = []
        for st, a in states: out += f(st, a)
        return self.merge(out)
    def op(self, states, test, want):
        """consume one operation accepted by test(st, kind, value) -> None or complaint"""
        def f(st, a):
            out = []
            for s, b in self.head(self.fork(st), a):
                self.nops += 1
                if b.op != 'sop':
                    self.err('missing', 'the schema prescribes %s, the encoder %s' % (want, 'stops' if b.op == 'snil' else 'performs ' + heads(b)))
                    raise Stop()
                m = test(s, b.a[0].a, b.a[1])
                if m:
                    self.err('op', 'the schema prescribes %s, the encoder performs %s(%s)%s' % (want, kshow(b.a[0].a), show(b.a[1], 4), '' if m is True else ': ' + m))
                    raise Stop()
                out.append((s, b.a[2]))
            return out
        return self.each(states, f)
    def split(self, states, c):
        """-> (states where c, states where not c)"""
        yes, no = [], []
        for st, a in states:
            for s, v in self.gate(self.fork(st), c): (yes if v else no).append((s, a))
        return yes, no
    # ---- values
    def numeq(self, st, v, p): return self.M.equal(self.rd, st, self.M.of(v), p, [200])
    def same(self, st, v, t):
        v, t = self.M.canon(whole(v)), self.M.canon(t)
        return v is t or self.rd.eqv(st, v, t, [200])
    # ---- the type's own layout
    def run(self):
        w = self.G.writer(self.g, self.packed)
        st = State({}, [], {})
        states = [(st, w.stream)]
        k = self.inst.decl.kind
        try:
            states = getattr(self, 'k_' + k)(states)
            self.where = 'end'
            self.op_end(states)
        except Stop: pass
        return self.errs
    def op_end(self, states):
        for st, a in states:
            for s, b in self.head(self.fork(st), a):
                if b.op != 'snil': self.err('extra', 'the schema prescribes nothing more, the encoder performs %s' % heads(b)); return
    def members_of(self):
        d = self.inst.decl
        for f in d.fields: yield f
    def mem(self, f):
        i = self.O.slot(self.sc.rt, f.name, self.inst)
        rt = self.O.slots(self.sc.rt)[i][1]
        t = PROJ(self.sc.term, ('f', None, i)); slot = t
        if t.ty is None and tystr(rt): t.ty = tystr(rt)
        opt = False
        if f.optional or f.cond is not None:
            if rt[0] == 'adt' and rt[1] == OPTION:
                opt = True; t = PROJ(t, ('f', 1, 0)); rt = rt[2][0]
                if t.ty is None and tystr(rt): t.ty = tystr(rt)
        ty = self.S.resolve(f.type, self.inst.decl.pkg, self.S.env(self.inst))
        return Member(f.name, t, ty, rt, f, self.sc), slot, opt
    def k_struct(self, states):
        rels = [set()]
        for f in reversed(self.inst.decl.fields): rels.append(rels[-1] | self.fieldrel(f))
        rels.reverse()
        for i, f in enumerate(self.inst.decl.fields):
            self.where = 'field %s' % f.name
            self.rel = frozenset(rels[i]); states = self.merge(states)
            m, slot, opt = self.mem(f)
            self.cur = m
            self.members.add(f.name)
            if f.optional:
                if not opt: self.err('optional', 'optional field is represented by %s' % ty_str(m.rt)); raise Stop()
                some = self.M.cond(is_some(slot))
                early = self.alignearly(states, f, some)
                if early is not None: states = early
                yes, no = self.split(states, some)
                states = []
                if yes:
                    yes = self.op(yes, lambda s, k, v: None if k[0] == 'bool' and self.M.cond(v) is BOOL(True) or k[0] == 'bool' and self.I.decide(s, self.M.cond(v)) is True else True, 'presence bit 1')
                    if early is None: yes = self.prefix(yes, f)
                    states += self.field(yes, m)
                if no:
                    states += self.op(no, lambda s, k, v: None if k[0] == 'bool' and (self.M.cond(v) is BOOL(False) or self.I.decide(s, self.M.cond(v)) is False) else True, 'presence bit 0')
                states = self.merge(states)
            elif f.cond is not None:
                c = self.O.tobool(self.O.ev(f.cond, self.sc))
                yes, no = self.split(states, c)
                if yes and opt:      # an encoder may demand that the value is there
                    for s, a in yes: self.I.assume(s, self.M.cond(is_some(slot)), True)
                if yes:
                    yes = self.prefix(yes, f)
                    yes = self.field(yes, m)
                states = self.merge(yes + no)
            else:
                states = self.prefix(states, f)
                states = self.field(states, m)
        return states
    def prefix(self, states, f):
        if f.align is not None:
            n = self.O.constnum(f.align, self.inst.decl.pkg)
            states = self.op(states, lambda s, k, v: None if k[0] == 'align' and self.numeq(s, k[1], self.M.const(n)) else True, 'alignment to %d bits' % n)
        if f.offset is not None and not uses_index(f.offset):
            states = self.op(states, lambda s, k, v: None if k[0] == 'align' and self.numeq(s, k[1], self.M.const(8)) else True, 'alignment to 8 bits for an offset')
        return states
    def alignearly(self, states, f, some):
        """known deviation: alignment emitted before the presence bit"""
        if f.align is None and (f.offset is None or uses_index(f.offset)): return None
        for st, a in states:
            for s, b in self.head(self.fork(st), a):
                if b.op != 'sop' or b.a[0].a[0] != 'align': return None
        self.errs['%s:align-before-presence' % self.where] = '%s (%s): alignment precedes the presence bit of the optional field; it belongs to the field and is written only when it is present' % (self.fn, self.where)
        return self.prefix(states, f)
    def k_choice(self, states):
        d = self.inst.decl
        sel = self.O.ev(d.selector, self.sc)
        hint = sel.ty.inst if sel.k in ('enum', 'mask') else None
        rest = states; out = []
        for labels, f in d.cases:
            self.where = 'case %s' % (f.name if f else show_expr(labels[0]))
            c = BOOL(False)
            for l in labels:
                lv = self.O.ev(l, self.sc if hint is None else None, d.pkg, hint)
                c = OR(c, self.eqsel(sel, lv))
            yes, rest = self.split(rest, c)
            if yes: out += self.casefield(yes, f)
            if not rest: break
        if rest:
            self.where = 'default'
            if d.default is not None: out += self.casefield(rest, d.default[0])
            else:
                # nothing selected: the object cannot be encoded
                for st, a in rest:
                    if self.infeasible_enum(st, sel): continue
                    for s, b in self.head(self.fork(st), a):
                        self.errs['default:unmatched'] = '%s: a selector that matches no case is not rejected: the encoder goes on with %s' % (self.fn, heads(b))
                        out.append((s, b))
        return self.merge(out)
    def infeasible_enum(self, st, sel):
        return False
    def eqsel(self, sel, lv):
        if sel.k == 'bool' or lv.k == 'bool': return self.M.booleq(self.O.tobool(sel), self.O.tobool(lv))
        if sel.k == 'str': return mk('app', 'eq', *sorted((self.M.canon(sel.x), self.M.canon(lv.x)), key=lambda n: n.id), ty='bool')
        return self.M.eq(self.M.add(self.O.num(sel), self.O.num(lv), -1))
    def casefield(self, states, f):
        if f is None: return states
        m, slot, opt = self.mem(f)
        self.members.add(f.name); self.cur = m
        if opt:
            for s, a in states: self.I.assume(s, self.M.cond(is_some(slot)), True)
        return self.field(states, m)
    def k_union(self, states):
        d = self.inst.decl
        # the selector: a field of an enum type with one variant per member
        hit = []
        for i, (n, t) in enumerate([(x[0], x[1]) for x in self.O.slots(self.sc.rt)]):
            a = self.L.F.adts.get(t[1]) if t[0] == 'adt' else None
            if a and a['kind'] == 'enum' and len(a['variants']) == len(d.fields) and [norm(v['name']) for v in a['variants']] == [norm(f.name) for f in d.fields] or \
               a and a['kind'] == 'enum' and 'selector' in n and t not in self.G.types: hit.append((i, t, a))
        if len(hit) != 1: raise Mismatch('%s: no unique selector field' % self.g.path)
        i, t, a = hit[0]
        sel = PROJ(self.sc.term, ('f', None, i))
        D = self.M.of(DISCR(sel, a))
        if len(a['variants']) != len(d.fields): self.err('selector', '%s has %d variants for %d members' % (t[1], len(a['variants']), len(d.fields))); raise Stop()
        out = []; rest = states
        for k, f in enumerate(d.fields):
            self.where = 'member %s' % f.name
            vs = [v for v in a['variants'] if norm(v['name']) == norm(f.name)] or [v for v in a['variants'] if norm(v['name']).startswith(norm(f.name)) or norm(v['name']).endswith(norm(f.name))]
            if not vs: self.err('selector', '%s has no variant for member %s' % (t[1], f.name)); raise Stop()
            dv = int(vs[0]['discr'])
            yes, rest = self.split(rest, self.M.eq(self.M.add(D, self.M.const(-dv))))
            if not yes: self.err('selector', 'variant %s of %s is never encoded' % (vs[0]['name'], t[1])); continue
            yes = self.value(yes, Member('#selector', None, S.Ty(b='varsize'), ('int', 'u32'), None, self.sc), num=self.M.const(k))
            out += self.casefield(yes, f)
        return self.merge(out)
    def k_enum(self, states):
        d = self.inst.decl
        ty = self.S.resolve(d.type, d.pkg, {})
        self.where = 'value'
        return self.value(states, Member('#value', None, ty, None, None, self.sc), num=self.O.itemnum(self.inst, self.M.of(DISCR(self.sc.term, self.g.adt))))
    def k_bitmask(self, states):
        d = self.inst.decl
        ty = self.S.resolve(d.type, d.pkg, {})
        self.where = 'value'
        b = self.O.value(self.sc.term, S.Ty(inst=self.inst), self.sc.rt)
        return self.value(states, Member('#value', None, ty, None, None, self.sc), num=b.x)
    # ---- fields and values
    def field(self, states, m):
        f = m.f; self.cur = m
        if f is None or f.array is None:
            return self.value(states, m)
        rt = m.rt
        if rt[0] != 'adt' or not rt[1].endswith('::Vec'): self.err('array', 'array field is represented by %s' % ty_str(rt)); raise Stop()
        et = rt[2][0]
        data = m.term
        if f.array[0] == 'auto':
            states = self.op(states, lambda s, k, v: None if k[0] == 'alen' and self.numeq(s, v, self.M.of(LEN(data))) else True, 'the number of elements')
        elif f.array[0] == 'len':
            n = self.O.num(self.O.ev(f.array[1], self.sc))
            want = self.M.eq(self.M.add(self.M.of(LEN(data)), n, -1))
            # the encoder has to have checked the number of elements before the elements are written
            def chk(st, a):
                out = []
                for s, b in self.head(self.fork(st), a):
                    if not self.lenfact(s, want, data, n): self.err('length', 'the encoder does not insist on %s elements' % self.pshow(n)); raise Stop()
                    out.append((s, b))
                return out
            states = self.each(states, chk)
        offs = f.offset is not None and uses_index(f.offset)
        pk = self.L.typackable(m.ty)
        packed = (f.packed or self.packed) and not self.notpacked(f)
        def test(s, k, v):
            if k[0] != 'elems': return True
            D, o = k[1], k[2]
            if not self.same(s, v, data): return 'the elements come from %s instead of %s' % (show(v, 4), show(data, 4))
            od = self.M.cond(o.a[1])
            if self.I.decide(s, od) is not offs: return 'elements are%s aligned' % ('' if self.I.decide(s, od) else ' not')
            fl = self.M.cond(D.a[1]) if isinstance(D.a[1], N) else BOOL(bool(D.a[1]))
            pd = self.I.decide(s, fl)
            if pd is None: return 'packing is undecided: %s' % show(D.a[1], 4)
            if pk or m.ty.inst is None:
                if pd != (packed and pk): return 'elements are %s' % ('packed' if pd else 'not packed')
            if ast.literal_eval(D.a[2]) != et: return 'element type %s instead of %s' % (D.a[2], ty_str(et))
            r = self.codec_is(s, self.L.codec(D.a[0], et), m, et)
            if r: return r
            if m.ty.inst is not None and m.ty.inst.decl.params:
                j = SYM('element@%s.%s' % (self.g.path, f.name), 'usize')
                s2 = self.fork(s)
                for q in list(s.pc):
                    if isinstance(q, N) and q.op == 'forall':
                        n, lam = q.a
                        if self.numeq(s, n, self.M.of(LEN(data))): self.I.assume(s2, self.M.cond(subst(lam.a[1], {lam.a[0]: tocast(j, lam.a[0].ty)})), True)
                self.checkargs(s2, m, PROJ(data, ('i', j)), et, j)
            return None
        return self.op(states, test, '%selements of %s' % ('packed ' if packed and pk else '', m.ty))
    def lenfact(self, st, want, data, n):
        if self.I.decide(st, want) is True: return True
        n2 = self.M.resolve(self.I, st, n)
        w = self.M.eq(self.M.add(self.M.of(LEN(data)), n2, -1))
        if self.I.decide(st, w) is True: return True
        # equality through other facts: len == trunc(n) with the cast lossless
        for f, v in list(st.pc.items()):
            if v is True and isinstance(f, N) and f.op == 'meq':
                p = self.M.add(self.M.unnode(f.a[0]), self.M.const(-f.a[1]))
                for s in (1, -1):
                    q = self.M.mul(p, self.M.const(s))
                    d = self.M.add(q, self.M.of(LEN(data)), -1)      # q = len - x  =>  d = -x
                    if self.M.equal(self.rd, st, self.M.neg(d), n, [100]): return True
        return False
    def notpacked(self, f): return self.inst.decl.kind == 'struct' and self.L.isoffset(self.inst, f)
    def pshow(self, p): return ' '.join('%+d%s' % (c, '' if m == () else '*' + '*'.join(show(a, 4) for a in m)) for m, c in p.items()) or '0'
    def codec_is(self, st, k, m, rt):
        """does a plain wire operation fit the schema type?"""
        ty = m.ty
        if ty.inst is not None:
            if k[0] != 'obj': return '%s instead of an object of type %s' % (kshow(k), ty)
            if k[1] != rt: return 'object of type %s instead of %s' % (ty_str(k[1]), ty_str(rt))
            return self.L.obj(rt, ty.inst, '%s.%s' % (self.inst, m.name))
        kind, w = self.width(ty, m.sc)
        if k[0] != kind: return '%s instead of %s' % (kshow(k), ty)
        if w is not None:
            if ty.dyn is None:
                if not self.numeq(st, k[1], w): return 'width %s instead of %s' % (show(k[1], 5), self.pshow(w))
                return None
            # widths of 0..64 bits are used as they are, all others are rejected by the runtime (W02, R04 cover every u8)
            s2 = self.fork(st)
            lo = self.M.ge(w); hi = self.M.ge(self.M.add(self.M.const(64), w, -1))
            self.I.assume(s2, lo, True); self.I.assume(s2, hi, True)
            if not self.numeq(s2, k[1], w): return 'width %s instead of %s' % (show(k[1], 5), self.pshow(w))
            for c, v in ((lo, False), (hi, False)):
                if self.I.decide(st, c) is not None: continue
                s2 = self.fork(st); self.I.assume(s2, c, v)
                if not self.numeq(s2, k[1], w) and not self.above(s2, self.M.of(k[1]), 64): self.errs['%s:width' % self.where] = '%s (%s): a width %s outside of 0..64 is cut to %s' % (self.fn, self.where, self.pshow(w), show(k[1], 5))
        return None
    def above(self, st, p, n, bud=16):
        p = self.M.resolve(self.I, st, p)
        if self.I.decide(st, self.M.ge(self.M.add(p, self.M.const(-n - 1)))) is True: return True
        for g in self.M.gates(p):
            g = gatecond(self.rd, st, g)
            if g is not None and bud > 0:
                for v in (True, False):
                    s2 = self.fork(st); self.I.assume(s2, g, v)
                    if not self.above(s2, p, n, bud // 2): return False
                return True
        return False
    def width(self, ty, sc):
        """-> operation, width polynomial or None"""
        b = ty.b
        if b in FIXW: return FIXW[b][0], self.M.const(FIXW[b][1])
        if b in ('bit', 'int'):
            k = 'u' if b == 'bit' else 'i'
            if ty.bits: return k, self.M.const(ty.bits)
            return k, self.O.num(self.O.ev(ty.dyn, sc))
        if b == 'bytes' or b == 'extern' or b == 'string': return b, None
        return b, None
    def value(self, states, m, num=None):
        ty = m.ty
        packed = self.packed and not (m.f is not None and self.notpacked(m.f))
        if ty.inst is not None:
            def test(s, k, v):
                if packed and k[0] == 'objp':
                    if k[1] != m.rt: return 'object of type %s instead of %s' % (ty_str(k[1]), ty_str(m.rt))
                    if not self.same(s, v, m.term): return 'the value is %s instead of %s' % (show(v, 4), show(m.term, 4))
                    self.context(k[2], m)
                    self.checkargs(s, m, m.term, m.rt, None)
                    return self.L.obj(m.rt, ty.inst, '%s.%s' % (self.inst, m.name))
                if k[0] == 'obj' and (not packed or not self.L.packable(ty.inst)):
                    if not self.same(s, v, m.term): return 'the value is %s instead of %s' % (show(v, 4), show(m.term, 4))
                    self.checkargs(s, m, m.term, m.rt, None)
                    return self.codec_is(s, k, m, m.rt)
                return True
            return self.op(states, test, '%sobject %s' % ('packed ' if packed else '', ty))
        if packed and ty.b not in UNPACKED:
            def test(s, k, v):
                if k[0] != 'ctx': return True
                rt = m.rt if m.rt is not None else self.rustof(v)
                r = self.codec_is(s, self.L.codec(k[2], rt), m, rt)
                if r: return r
                self.context(k[1], m)
                return self.valeq(s, v, m, num)
            return self.op(states, test, 'packed %s' % ty)
        def test(s, k, v):
            r = self.codec_is(s, k, m, m.rt)
            if r: return True if k[0] in ('alen', 'elems', 'align') else r
            return self.valeq(s, v, m, num)
        return self.op(states, test, str(ty))
    def rustof(self, v):
        v = whole(v)
        return ('int', v.ty)
    def valeq(self, st, v, m, num):
        if m.ty.b == 'bool': 
            return None if self.rd.eqv(st, self.M.cond(v), self.M.cond(m.term), [100]) else 'the value is %s instead of %s' % (show(v, 4), show(m.term, 4))
        if m.ty.b in UNPACKED:
            return None if self.same(st, v, m.term) else 'the value is %s instead of %s' % (show(v, 4), show(m.term, 4))
        want = num if num is not None else self.M.of(m.term)
        if self.numeq(st, v, want): return None
        return 'the value is %s instead of %s' % (show(v, 5), self.pshow(want))
    def context(self, path, m):
        if path.startswith('dyn:'): self.err('context', 'packed with a context that is not the type\'s own: %s' % path); return
        o = self.ctxof.setdefault(path, m.name)
        if o != m.name: self.err('context', '%s and %s share packing context %s' % (o, m.name, path))
        for p, n in self.ctxof.items():
            if n == m.name and p != path: self.err('context', 'packed with contexts %s and %s' % (p, path))
            if n != m.name and (p.startswith(path + '.') or path.startswith(p + '.')): self.err('context', 'context %s of %s lies inside %s of %s' % (p, n, path, m.name))

class Stop(Exception): pass
def uses_index(e):
    return isinstance(e, tuple) and (e == ('index',) or any(uses_index(x) for x in e if isinstance(x, tuple)))
def show_expr(e):
    o = e[0]
    if o in ('int', 'bool', 'float', 'str', 'id'): return str(e[1])
    if o == 'dot': return show_expr(e[1]) + '.' + e[2]
    if o == 'un': return e[1] + show_expr(e[2])
    if o == 'paren': return '(' + show_expr(e[1]) + ')'
    if o == 'bin': return '%s %s %s' % (show_expr(e[2]), e[1], show_expr(e[3]))
    if o == 'idx': return '%s[%s]' % (show_expr(e[1]), show_expr(e[2]))
    if o == 'index': return '@index'
    if o == 'tern': return '%s ? %s : %s' % tuple(map(show_expr, e[1:]))
    return '%s(%s)' % (o, ', '.join(show_expr(x) for x in e[1:] if isinstance(x, tuple)))
