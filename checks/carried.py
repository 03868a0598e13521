"""C03, C04: every construct of the grammar is carried into the generated code or reported; the generated code compiles."""
import re
from engine import build
from engine.facts import succs
from engine.mirflow import callee
from engine.effects import *
from engine.carry import Carry, depends, reporting, returns
from engine.facts import ty_str

GRAMMAR = 'crates/zserio-rs-build/src/internal/parser/ZserioParser.g4'
GEN = 'zserio_rs_build::internal::parser::gen::zserioparser::'
AST = 'zserio_rs_build::internal::ast::'
RET = 'zserio_rs_build::internal::visitor::ZserioTreeReturnType'
VISITOR = 'zserio_rs_build::internal::visitor::Visitor'
# constructs that have no influence on how a value of a type is encoded
NOCODE = {'compatibilityVersionDirective': 'names a compiler version', 'ruleGroupDefinition': 'documentation', 'ruleDefinition': 'documentation',
          'sqlTableDeclaration': 'SQL', 'sqlTableFieldDefinition': 'SQL', 'sqlConstraintDefinition': 'SQL', 'sqlConstraint': 'SQL', 'sqlWithoutRowId': 'SQL', 'sqlDatabaseDefinition': 'SQL', 'sqlDatabaseFieldDefinition': 'SQL',
          'serviceDefinition': 'services', 'serviceMethodDefinition': 'services', 'pubsubDefinition': 'services', 'pubsubMessageDefinition': 'services', 'topicDefinition': 'services'}
NOTOKEN = {('enumItem', 'DEPRECATED'): 'only a hint for users of the item'}
PUNCT = {'COMMA', 'SEMICOLON', 'LPAREN', 'RPAREN', 'LBRACE', 'RBRACE', 'LBRACKET', 'RBRACKET', 'COLON', 'DOT', 'ASSIGN', 'LT', 'GT', 'EOF', 'QUESTIONMARK'}

# ---- grammar --------------------------------------------------------------------------------------------------------

class Elem:
    def __init__(s, sym, label, card, alt): s.sym, s.label, s.card, s.alt = sym, label, card, alt
    def __repr__(s): return '%s%s%s' % (s.sym, {'one': '', 'opt': '?', 'many': '*'}[s.card], '|' if s.alt else '')

def grammar(text):
    """context name -> (rule, elements), rule -> context names"""
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    text = re.sub(r'^\s*parser\s+grammar[^;]*;', '', text)
    text = re.sub(r'\b(options|tokens)\s*\{[^}]*\}', '', text)
    ctx, rules = {}, {}
    for m in re.finditer(r"(\w+)\s*:((?:[^;'])*);", text):
        name, body = m.group(1), re.sub(r'<assoc=\w+>', '', m.group(2))
        toks = re.findall(r'\w+|[()|*+?=#]', body)
        alts, cur, depth, i = [], [], 0, 0
        for t in toks:
            if t == '(': depth += 1
            if t == ')': depth -= 1
            if t == '|' and depth == 0: alts.append(cur); cur = []
            else: cur.append(t)
        alts.append(cur)
        labelled = [a for a in alts if '#' in a]
        if labelled:
            rules[name] = []
            for a in alts:
                lab = a[a.index('#') + 1]
                ctx[lab] = (name, elements(a[:a.index('#')], False)); rules[name].append(lab)
        else:
            es = []
            for a in alts: es += elements(a, len(alts) > 1)
            ctx[name] = (name, merge(es)); rules[name] = [name]
    return ctx, rules

def elements(toks, alt, card='one'):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]; label = None
        if i + 1 < len(toks) and toks[i + 1] == '=': label = t; i += 2; t = toks[i]
        if t == '(':
            d, j = 1, i + 1
            while d: d += (toks[j] == '(') - (toks[j] == ')'); j += 1
            inner = toks[i + 1:j - 1]; i = j
            c = card
            if i < len(toks) and toks[i] in '?*+':
                c = 'many' if toks[i] in '*+' or card == 'many' else 'opt'; i += 1
            groups, cur, d = [], [], 0
            for x in inner:
                d += (x == '(') - (x == ')')
                if x == '|' and d == 0: groups.append(cur); cur = []
                else: cur.append(x)
            groups.append(cur)
            sub = []
            for g in groups: sub += elements(g, alt or len(groups) > 1, c)
            if label: out.append(Elem('operator', label, c, alt)); continue
            if any(e.label for e in sub): out.append(Elem('operator', [e.label for e in sub if e.label][0], c, alt)); continue
            out += sub; continue
        i += 1
        c = card
        if i < len(toks) and toks[i] in '?*+':
            c = 'many' if toks[i] in '*+' or card == 'many' else 'opt'; i += 1
        out.append(Elem(t if not label else 'operator', label, c, alt))
    return out

def merge(es):
    """ANTLR's accessors are by symbol: several occurrences become a list"""
    return es

def significant(cname, es):
    """elements that distinguish schemas: rule children, optional or alternative keywords, values"""
    out = {}
    for e in es:
        tok = e.sym[0].isupper()
        if tok and e.sym in PUNCT: continue
        if tok and not e.label and e.card == 'one' and not e.alt and not (e.sym == 'ID' or e.sym.endswith('LITERAL') or e.sym == 'INDEX'): continue
        x = out.setdefault(e.sym, {'token': tok or bool(e.label), 'label': e.label, 'many': False, 'n': 0, 'opt': False, 'alt': False})
        x['n'] += 1; x['many'] |= e.card == 'many'; x['opt'] |= e.card == 'opt'; x['alt'] |= e.alt
    return out

# ---- the visitor ----------------------------------------------------------------------------------------------------

def cap(s): return s[0].upper() + s[1:]

class Visitor:
    def __init__(self, F, ctx, rules):
        self.F, self.ctx, self.rules = F, ctx, rules
        self.bodies = {b.path: b for b in genbodies(F) if '::visitor::' in b.path or b.path.startswith('<' + VISITOR)}
        self.over = {b.path.split('::')[-1][6:]: b for b in self.bodies.values() if 'ParserVisitorCompat' in b.path and b.path.split('::')[-1].startswith('visit_')}
        self.variants = {}
        self.allowed = {}
        for r in rules: self.allowed[r] = self.rets(r, set())
        self.C = Carry(F, self.bodies, VISITOR, RET, self.allowed)
        self.sites = {}
        self.visited = set()
        self.texts = set()
        ext = {GEN + cap(c) + 'ContextExt': c for c in ctx}
        traits = {GEN + cap(c) + 'ContextAttrs': c for c in ctx}
        for b in self.bodies.values():
            for i, t in calls(b):
                p, n = callee(t)
                tr = t[1][1].get('trait') if t[1][0] == 'fn' else None
                if tr in traits:
                    c = traits[tr]
                    sym, k = (n[:-4], 'all') if n.endswith('_all') else (n, None)
                    if k is None and len(t[2]) > 1:
                        o = t[2][1]
                        k = o[1][1] if o[0] == 'c' and o[1][0] == 'int' else 'any'
                    self.sites.setdefault((c, sym), []).append((b, i, t, k))
                if n == 'get_text' and t[1][0] == 'fn':
                    for a in t[1][1]['args']:
                        for x in tys(a):
                            c = self.ctxof(x)
                            if c: self.texts.add(c)
            for i, (st, t, cl) in enumerate(b.blocks):
                if cl: continue
                for s in st:
                    if s[0] != '=': continue
                    if s[2][0] == 'cast' and 'Unsize' in str(s[2][1]) and s[2][3][0] == 'ref' and s[2][3][2][0] == 'dyn':
                        src = b.locals[s[2][2][1][0]] if s[2][2][0] in ('cp', 'mv') else None
                        for x in tys(src):
                            c = self.ctxof(x)
                            if c: self.visited.add(c)
                    for pl in places(s):
                        ty = b.locals[pl[0]]
                        for e in pl[1]:
                            if e == '*': ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
                            elif e[0] == 'f':
                                if ty and ty[0] == 'adt' and ty[1] in ext:
                                    fn = F.adts[ty[1]]['variants'][0]['fields'][e[1]][0] if ty[1] in F.adts else None
                                    if fn == 'operator': self.sites.setdefault((ext[ty[1]], 'operator'), []).append((b, i, s, None))
                                ty = e[2]
    def ctxof(self, x):
        if x[0] == 'adt' and x[1].startswith(GEN):
            n = x[1][len(GEN):]
            for suf in ('ContextExt', 'ContextAll'):
                if n.endswith(suf):
                    c = n[:-len(suf)]; c = c[0].lower() + c[1:]
                    if c in self.ctx or c in self.rules: return c
        return None
    def rets(self, rule, seen):
        """variants of the enum of visit results that visiting the rule returns; None when nothing is known"""
        if rule in seen: return set()
        seen.add(rule); out = set()
        for c in self.rules[rule]:
            b = self.over.get(c)
            if b is None:
                out |= {v for v, n in enumerate(x[0] if isinstance(x, tuple) else x['name'] for x in self.F.adts[RET]['variants']) if n == 'Vec'}
                for e in self.ctx[c][1]:
                    if e.sym in self.rules and e.sym not in NOCODE: out |= self.rets(e.sym, seen)
                continue
            got = set(); D = Defs(b); todo = [0]; done = set(); passes = False
            while todo:
                l = todo.pop()
                if l in done: continue
                done.add(l)
                for pr, k, x, line in D.defs.get(l, []):
                    if pr: continue
                    if k == 'rv' and x[0] == 'agg' and x[1][0] == 'adt' and x[1][1] == RET: got.add(x[1][2])
                    elif k == 'rv' and x[0] == 'use' and x[1][0] in ('cp', 'mv'): todo.append(x[1][1][0])
                    elif k == 'call':
                        f = self.over.get((callee(x)[1] or '')[6:])
                        passes = True
            if passes:
                for e in self.ctx[c][1]:
                    if e.sym in self.rules: got |= self.rets(e.sym, seen)
            out |= got
        return out

def places(s):
    pl, rv = s[1], s[2]
    yield pl
    if rv[0] in ('ref',): yield rv[2]
    elif rv[0] == 'discr': yield rv[1]
    else:
        for o in operands(rv):
            if o[0] in ('cp', 'mv'): yield o[1]

def leaflike(V, rule, seen=()):
    """the text of the rule says everything: no nested expressions or type references"""
    if rule in seen: return False
    for c in V.rules[rule]:
        for e in V.ctx[c][1]:
            if e.sym in V.rules and not leaflike(V, e.sym, seen + (rule,)): return False
    return True

def C03(c):
    c.rule('for every rule of the grammar that describes data, each child, optional keyword, value and operator is asked for by the visitor, and on every path the answer reaches the syntax tree the visitor returns, a panic or a warning; lists are walked to the end and each element is stored')
    c.rule('every field of the syntax tree is used by the code generator (or, where it only directs name resolution and template instantiation, by those passes); what no code is generated for is reported when it is read')
    c.rule('copies of syntax trees made for template instances carry every field of the original')
    c.rule('the lexer and the parser have an error listener that always panics before the first rule is parsed; declarations stored under their name are not replaced silently')
    c.rule('every structure, choice, union, enum, bitmask, subtype, constant and function of the corpus schemas has its counterpart in the generated code')
    F = build.load('all')
    import os
    ctx, rules = grammar(open(os.path.join(build.REPO, GRAMMAR)).read())
    V = Visitor(F, ctx, rules)
    parents = {}
    for k, (r, es) in ctx.items():
        for e in es:
            if e.sym in rules: parents.setdefault(e.sym, set()).add(r)
    covered = {r for r in rules if leaflike(V, r) and (r in V.texts or any(p in V.texts for p in parents.get(r, ())) or any(leaflike(V, p) and (p in V.texts or any(q in V.texts for q in parents.get(p, ()))) for p in parents.get(r, ())))}
    V.covered = covered
    sited = {k[0] for k in V.sites}
    for k, (r, es) in sorted(ctx.items()):
        if r in NOCODE: continue
        c.count('grammar rules')
        if r in covered: c.ok('elements', len(significant(k, es)), '%s: by its text' % k); continue
        dflt = k not in V.over and k not in sited and (k in V.visited or r in V.visited or all(x in V.visited or dfltvisited(V, x, parents, set()) for x in parents.get(r, ())))
        for sym, x in significant(k, es).items():
            if sym in NOCODE or (k, sym) in NOTOKEN: continue
            if dflt: c.ok('elements', 1, '%s.%s: by the visit of all children' % (k, sym)); continue
            element(c, V, k, r, sym, x)
    for f in [b for b in V.bodies.values() if b.path.endswith('::aggregate_results')]:
        for i in (2, 3):
            why = V.C.param(f, i, None)
            c.check(why is None, 'aggregate:%d' % i, 'aggregate_results: a result of visiting children %s' % why, 'elements')
    tree(c, F, V); copies(c, F, V); listeners(c, F, V); duplicates(c, F, V)
    corpus(c)
    c.floor('grammar rules', 70); c.floor('elements', 150); c.floor('syntax tree fields', 70); c.floor('copied fields', 8)
    return V

def dfltvisited(V, rule, parents, seen):
    """visited through visit_children of a parent that has no visit function of its own"""
    if rule in seen: return False
    seen.add(rule)
    if rule in V.visited: return True
    return rule not in V.over and any(dfltvisited(V, p, parents, seen) for p in parents.get(rule, ()))

def element(c, V, k, r, sym, x):
    sites = V.sites.get((k, sym), [])
    key = '%s.%s' % (k, sym)
    if not sites:
        c.violation('unused:' + key, 'the visitor never looks at %s in %s: what the schema says there is dropped' % (sym, k)); return
    good, why = [], None
    for b, i, t, kk in sites:
        if x['token']: w = tokenflow(V, b, i, t)
        else:
            w = ruleflow(V, b, i, t, sym, x, kk)
            # the text of the child is read with that of the parent, or the child is looked into right here: only its presence matters
            if w and (sym in V.covered or any(V.ctx[c2][0] == sym and any(y[0] is b for y in ss) for (c2, _), ss in V.sites.items())): w = tokenflow(V, b, i, t)
        if w is None: good.append((b, i, t, kk))
        else: why = why or '%s %s' % (where(b, t[-1]), w)
    if not good:
        c.violation('lost:' + key, 'the %s of %s %s' % (sym, k, why)); return
    if not x['token']:
        ks = {kk for b, i, t, kk in good}
        if x['many'] and not ks & {'all', 'any'} :
            c.violation('some:' + key, 'the visitor only takes some of the %s of %s' % (sym, k)); return
        if not x['many'] and x['n'] > 1 and not x['alt'] and not ks & {'all', 'any'}:
            miss = [i for i in range(x['n']) if i not in ks]
            if miss: c.violation('some:' + key, 'the visitor does not look at %s number %s of %s' % (sym, miss[0] + 1, k)); return
        idx = [ks & {'all', 'any'} or None] if x['many'] or x['n'] == 1 or ks & {'all', 'any'} else [{i} for i in range(x['n'])]
        for want in idx:
            w = reached(V, k, sym, [g for g in good if want is None or g[3] in want], x)
            if w: c.violation('path:' + key, 'the %s of %s %s' % (sym, k, w)); return
    c.ok('elements', 1, '%s.%s: %s' % (k, sym, where(good[0][0], good[0][2][-1])))

def tokenflow(V, b, i, t):
    """None when the answer decides something in the result, a panic or a warning"""
    d = t[3][0] if t[0] == 'call' else t[1][0]
    return uses(V, b, {d}, set())

def uses(V, b, starts, seen):
    T, rep = depends(V.C, b, starts)
    if rep: return None
    s = V.C.sinks(b)
    if not (T & s): return 'has no influence on the result'
    if V.C.visits(b): return None
    return upwards(V, b, T & s, seen, lambda x, l: uses(V, x, l, seen))

def upwards(V, b, hit, seen, follow):
    """the result (and the changed arguments) of a helper must be used by its callers"""
    if b.path in seen: return None
    seen.add(b.path)
    n = 0
    for x in V.bodies.values():
        for j, u in calls(x):
            st = set()
            if callee(u)[0] == b.path:
                if 0 in hit: st.add(u[3][0])
                for q in hit - {0}:
                    if q - 1 < len(u[2]) and u[2][q - 1][0] in ('cp', 'mv'): st |= {u[2][q - 1][1][0], V.C.D(x).base(u[2][q - 1][1][0])}
            elif b.kind == 'closure' and any(V.C.body(x, o) is b for o in u[2]):
                st.add(u[3][0])
                for o in u[2]:
                    if V.C.body(x, o) is b and o[0] in ('cp', 'mv'):
                        for y in (y for st_, _, cl in x.blocks if not cl for y in st_):
                            if y[0] == '=' and y[1] == (o[1][0], ()) and y[2][0] == 'agg':
                                for oo in y[2][2]:
                                    if oo[0] in ('cp', 'mv'): st |= {oo[1][0], V.C.D(x).base(oo[1][0])}
            else: continue
            n += 1
            w = follow(x, st) if st else 'is dropped'
            if w: return w
    return None if n else 'is in a function nobody calls'

def ruleflow(V, b, i, t, sym, x, kk):
    d = t[3]
    why = V.C.run(b, t[4], 0, {d[0]}, {d[0]}, sym)
    if why: return why
    return None if V.C.visits(b) else upflow(V, b, sym, set())

def upflow(V, b, sym, seen):
    hit = V.C.sinks(b)
    mut = {i for i in hit if i}
    def follow(x, st):
        for j, u in calls(x):
            if callee(u)[0] == b.path or any(V.C.body(x, o) is b for o in u[2]):
                w = V.C.run(x, u[4], 0, set(st), set(), sym)
                if w: return w
        return None if V.C.visits(x) else upflow(V, x, sym, seen)
    return upwards(V, b, {0} | mut, seen, follow)

def reached(V, k, sym, good, x):
    """every path through the visit function comes past the question, unless an alternative or a missing parent excludes it"""
    b = V.over.get(k)
    if b is None: return None
    here = {i for y, i, t, kk in good if y is b}
    if not here:
        # asked in helpers: every path must call one of them
        helpers = {y.path for y, i, t, kk in good}
        here = {j for j, u in calls(b) if callee(u)[0] in helpers or any((V.C.body(b, o) or b).path in helpers - {b.path} for o in u[2])}
        if not here: return None
    prune = set()
    for (k2, s2), ss in V.sites.items():
        if k2 != k: continue
        if s2 == sym or x['alt']:
            for y, i, t, kk in ss:
                if y is b and t[0] == 'call': prune |= presence(V, b, t[3][0])
    live = V.C.ret_blocks(b)
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen or n not in live or n in here or n in prune or reporting(b, n): continue
        seen.add(n)
        if b.blocks[n][1][0] == 'return': return 'is not looked at on some paths through %s' % where(b, b.blocks[n][1][-1])
        todo += succs(b.blocks[n][1])
    return None

def presence(V, b, l):
    """switches on whether the Option in local l is there"""
    T = {l}; ch = True; out = set()
    while ch:
        ch = False
        for n, (st, t, cl) in enumerate(b.blocks):
            if cl: continue
            for s in st:
                if s[0] == '=' and not s[1][1] and s[1][0] not in T and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in operands(s[2])): T.add(s[1][0]); ch = True
            if t[0] == 'call' and not t[3][1] and t[3][0] not in T and callee(t)[1] in ('is_some', 'is_none', 'as_ref', 'as_deref', 'deref', 'clone') and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in t[2]): T.add(t[3][0]); ch = True
            if t[0] == 'switch' and t[1][0] in ('cp', 'mv') and t[1][1][0] in T: out.add(n)
    return out

# ---- the syntax tree ------------------------------------------------------------------------------------------------

def astfields(b, pl):
    """(type, field number) of every syntax tree field in the place"""
    ty = b.locals[pl[0]]
    for n, e in enumerate(pl[1]):
        if e == '*': ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
        elif e[0] == 'f':
            if ty and ty[0] == 'adt' and ty[1].startswith(AST): yield ty[1], e[1], n == len(pl[1]) - 1
            ty = e[2]
        elif e[0] != 'd': ty = None

def derived(b): return ' as core::' in b.path or ' as std::' in b.path

def constlike(D, o, depth=0):
    """made from constants only"""
    if o[0] == 'c': return True
    if o[0] not in ('cp', 'mv') or depth > 8: return False
    l = o[1][0]
    if 0 < l <= D.b.argc: return False
    ds = D.defs.get(l, [])
    if not ds: return False
    for pr, k, x, _ in ds:
        if k == 'call':
            if not all(constlike(D, a, depth + 1) for a in x[2]): return False
        elif k == 'rv':
            if x[0] in ('use', 'cast', 'un'): a = [x[1] if x[0] == 'use' else x[2]]
            elif x[0] == 'agg': a = x[2]
            elif x[0] == 'ref': a = [('cp', (x[2][0], ()))]
            else: return False
            if not all(constlike(D, y, depth + 1) for y in a): return False
        else: return False
    return True

def reads_of(b):
    """(type, field, block, statement index, destination) of every read of a syntax tree field"""
    for i, (st, t, cl) in enumerate(b.blocks):
        if cl: continue
        for j, s in enumerate(st):
            if s[0] != '=': continue
            for pl in list(places(s))[1:]:
                for S, f, last in astfields(b, pl): yield S, f, i, j, s[1], pl
        for o in t[2] if t[0] == 'call' else (t[1],) if t[0] in ('switch', 'assert') else ():
            if o[0] in ('cp', 'mv'):
                for S, f, last in astfields(b, o[1]): yield S, f, i, len(st), t[3] if t[0] == 'call' else None, o[1]

def writes_of(b):
    for i, (st, t, cl) in enumerate(b.blocks):
        if cl: continue
        for j, s in enumerate(st):
            if s[0] != '=': continue
            fs = [(S, f) for S, f, last in astfields(b, s[1]) if last]
            for S, f in fs: yield S, f, i, j, [o for o in operands(s[2])], s[-1]
            if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].startswith(AST):
                for f, o in enumerate(s[2][2]): yield s[2][1][1], f, i, j, [o], s[-1]
        if t[0] == 'call' and t[3][1]:
            for S, f, last in astfields(b, t[3]):
                if last: yield S, f, i, len(st), list(t[2]), t[-1]

def fieldname(F, S, f):
    x = F.adts[S]['variants'][0]['fields'][f]
    return '%s.%s' % (S.split('::')[-1], x[0] if isinstance(x, (list, tuple)) else x['name'])

def tree(c, F, V):
    """fields of the syntax tree are used, or reported when they are stored"""
    hand = [b for b in genbodies(F) if not derived(b)]
    used, inast = set(), {}
    for b in hand:
        inside = b.path in V.bodies
        for S, f, i, j, d, pl in reads_of(b):
            if inside: continue
            if short(b.path).startswith(('ast::', '<ast::')): inast.setdefault((S, f), set()).add(b.path)
            else: used.add((S, f))
    stored = {}
    for b in hand:
        for S, f, i, j, ops, line in writes_of(b): stored.setdefault((S, f), []).append((b, i, j, ops, line))
    for S, a in sorted(F.adts.items()):
        if not S.startswith(AST) or a['kind'] != 'struct': continue
        for f in range(len(a['variants'][0]['fields'])):
            c.count('syntax tree fields')
            if (S, f) in used: c.ok('tree', 1, '%s: used' % fieldname(F, S, f)); continue
            # resolved into another field of the same node
            if any(S2 == S and f2 != f for p in inast.get((S, f), ()) for S2, f2, *_ in writes_of(F.bodies[p])) and any((S2, f2) in used for p in inast[(S, f)] for S2, f2, *_ in writes_of(F.bodies[p]) if S2 == S):
                if flowsto(V, F, S, f, inast[(S, f)], used): c.ok('tree', 1, '%s: resolved' % fieldname(F, S, f)); continue
            bad = None
            for b, i, j, ops, line in stored.get((S, f), ()):
                if b.path not in V.bodies: continue
                D = V.C.D(b)
                if all(constlike(D, o) for o in ops): continue
                if not reported(V, b, i, ops): bad = '%s, %s' % (where(b, line), 'neither used nor reported')
            c.check(bad is None, 'field:%s' % fieldname(F, S, f), 'no code is generated for %s: what is stored there is neither used nor reported (%s)' % (fieldname(F, S, f), bad), 'tree', '%s: reported or constant' % fieldname(F, S, f))

def flowsto(V, F, S, f, paths_, used):
    for p in paths_:
        b = F.bodies[p]
        starts = {d[0] for S2, f2, i, j, d, pl in reads_of(b) if (S2, f2) == (S, f) and d is not None}
        T, rep = depends(V.C, b, {x for x in starts if x > b.argc})
        for S2, f2, i, j, ops, line in writes_of(b):
            if S2 == S and (S2, f2) in used and any(o[0] in ('cp', 'mv') and o[1][0] in T for o in ops): return True
    return False

def reported(V, b, i, ops):
    """every path through block i passes a warning, or the value was the condition of one or of a panic"""
    want = {o[1][0] for o in ops if o[0] in ('cp', 'mv')}
    for ss in V.sites.values():
        for y, n, t, kk in ss:
            if y is b and t[0] == 'call':
                T, rep = depends(V.C, b, {t[3][0]}, control=False)
                if T & want and not ruledriven(b, t) and any(z is b and u[0] == 'call' and depends(V.C, b, {u[3][0]})[1] for z, m, u, _ in ss): return True
    rep = {n for n in range(len(b.blocks)) if reporting(b, n)}
    if i in rep: return True
    live = V.C.ret_blocks(b)
    def path(a, targets):
        seen, todo = set(), [a]
        while todo:
            n = todo.pop()
            if n in targets: return True
            if n in seen or n in rep or n not in live: continue
            seen.add(n); todo += succs(b.blocks[n][1])
        return False
    rets = {n for n, (st, t, cl) in enumerate(b.blocks) if t[0] == 'return' and not cl}
    return not (path(0, {i}) and any(path(m, rets) for m in succs(b.blocks[i][1])))

def ruledriven(b, t):
    """the accessor returns a rule, whose presence being decided says nothing about its content"""
    ty = b.locals[t[3][0]]
    return any(x[0] == 'adt' and x[1].startswith(GEN) and x[1].endswith(('ContextExt', 'ContextAll')) for x in tys(ty))

def textual(t):
    while t and t[0] in ('ref', 'ptr'): t = t[2]
    if t is None: return False
    if t[0] == 'str' or t[0] == 'int' or t == ('bool',): return True
    if t[0] == 'adt' and t[1] == 'alloc::string::String': return True
    return t[0] == 'adt' and t[1] == 'alloc::vec::Vec' and bool(t[2]) and textual(t[2][0])

def copies(c, F, V):
    """functions that build a node of the syntax tree from one of the same type"""
    own = {b.path: b for b in genbodies(F) if not derived(b)}
    C = Carry(F, own)
    for b in sorted(own.values(), key=lambda x: x.path):
        if derived(b) or b.path in V.bodies: continue
        aggs = {}
        for i, (st, t, cl) in enumerate(b.blocks):
            if cl: continue
            for j, s in enumerate(st):
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].startswith(AST) and F.adts[s[2][1][1]]['kind'] == 'struct': aggs.setdefault(s[2][1][1], set()).add(i)
        D = C.D(b)
        for S, at in sorted(aggs.items()):
            ks = [k for k in range(1, b.argc + 1) if node(b.locals[k]) == S]
            if not ks: continue
            rd = {}
            for S2, f, i, j, d, pl in reads_of(b):
                if S2 == S and d is not None and (set(D.chain(pl[0])) & set(ks)) and not d[1]: rd.setdefault(f, []).append((i, j, d))
            for f, fl in enumerate(F.adts[S]['variants'][0]['fields']):
                ty = fl[1] if isinstance(fl, (list, tuple)) else fl['ty']
                if textual(ty): continue
                c.count('copied fields')
                key = 'copy:%s:%s' % (b.path.split('::')[-1], fieldname(F, S, f))
                good, why = set(), None
                for i, j, d in rd.get(f, ()):
                    w = C.run(b, i, j + 1, {d[0]}, {d[0]} if optional(ty) else set())
                    if w is None: good.add(i)
                    else: why = why or w
                if not rd.get(f): c.violation(key, '%s copies a %s without its %s' % (short(b.path), S.split('::')[-1], fieldname(F, S, f))); continue
                if not good: c.violation(key, '%s copies a %s, but its %s %s' % (short(b.path), S.split('::')[-1], fieldname(F, S, f), why)); continue
                if misses(C, b, at, good): c.violation(key, '%s copies a %s on some paths without its %s' % (short(b.path), S.split('::')[-1], fieldname(F, S, f))); continue
                c.ok('copies', 1, '%s: %s' % (short(b.path), fieldname(F, S, f)))

def node(t):
    while t and t[0] in ('ref', 'ptr'): t = t[2]
    return t[1] if t and t[0] == 'adt' else None
def optional(t): return t is not None and t[0] == 'adt' and t[1] == 'core::option::Option'

def misses(C, b, at, good):
    live = C.ret_blocks(b)
    rets = {n for n, (st, t, cl) in enumerate(b.blocks) if t[0] == 'return' and not cl}
    def path(a, targets):
        seen, todo = set(), [a]
        while todo:
            n = todo.pop()
            if n in seen or n in good or n not in live: continue
            if n in targets: return True
            seen.add(n); todo += succs(b.blocks[n][1])
        return False
    return any(a not in good and path(0, {a}) and path(a, rets) for a in at)

# ---- syntax errors and duplicates -----------------------------------------------------------------------------------

def listeners(c, F, V):
    n = 0
    rules = {'%s' % r for r in V.rules}
    for b in genbodies(F):
        for i, t in calls(b):
            p, nm = callee(t)
            if nm not in rules or not t[2] or not p or '::parser::gen::' not in p: continue
            rt = b.locals[t[2][0][1][0]] if t[2][0][0] in ('cp', 'mv') else None
            if not any(x[0] == 'adt' and x[1].startswith(GEN) and x[1].endswith('ZserioParser') for x in tys(rt)): continue
            n += 1
            for what in ('Lexer', 'Parser'):
                good, rem = set(), set()
                for j, u in calls(b):
                    q, un = callee(u)
                    if un not in ('add_error_listener', 'remove_error_listeners') or not u[2] or u[2][0][0] not in ('cp', 'mv'): continue
                    r = b.locals[u[2][0][1][0]]
                    kind = [x[1] for x in tys(r) if x[0] == 'adt' and x[1].endswith(('ZserioLexer', 'ZserioParser'))]
                    names = [x[1] for x in tys(r) if x[0] == 'adt']
                    isparser = any(x.endswith('::ZserioParser') or 'BaseParser' in x for x in names)
                    if isparser != (what == 'Parser'): continue
                    if un == 'remove_error_listeners': rem.add(j); continue
                    d = diverging(F, V, b, u[2][1])
                    if d: good.add(j)
                key = 'listener:%s' % what.lower()
                # a good listener is added on every path to the rule, and none is removed after it
                seen, todo, bad = set(), [0], False
                while todo:
                    m = todo.pop()
                    if m in seen or m in good or b.blocks[m][2]: continue
                    seen.add(m)
                    if m == i: bad = True
                    todo += succs(b.blocks[m][1])
                late = False
                for g in good:
                    seen, todo = set(), list(succs(b.blocks[g][1]))
                    while todo:
                        m = todo.pop()
                        if m in seen or b.blocks[m][2] or m == i: continue
                        seen.add(m)
                        if m in rem: late = True
                        todo += succs(b.blocks[m][1])
                c.check(good and not bad and not late, key, '%s parses a schema without an error listener of the %s that always fails: text that does not match the grammar is skipped' % (where(b, t[-1]), what.lower()), 'listeners', '%s %s' % (where(b, t[-1]), what))
    c.floor('listeners', 2)
    c.check(n > 0, 'listener:none', 'no function parses a schema', 'parse calls')

def diverging(F, V, b, o):
    """the boxed error listener always panics"""
    D = V.C.D(b); found = set(); todo = [o]; seen = set()
    while todo:
        x = todo.pop()
        if x[0] not in ('cp', 'mv') or x[1][0] in seen: continue
        seen.add(x[1][0])
        for t in tys(b.locals[x[1][0]]):
            if t[0] == 'adt' and t[1].startswith('zserio_rs_build::'): found.add(t[1])
        for pr, k, y, _ in D.defs.get(x[1][0], []):
            todo += list(y[2]) if k == 'call' else list(operands(y))
    ok = False
    for ty in found:
        for p, f in F.bodies.items():
            if p.startswith('<' + ty + ' as ') and 'ErrorListener' in p and p.endswith('::syntax_error'):
                if returns(f) & {0}: return False
                ok = True
    return ok

def duplicates(c, F, V):
    """declarations under the same name do not replace each other silently"""
    for b in genbodies(F):
        if derived(b): continue
        C = V.C; D = C.D(b)
        for i, t in calls(b):
            p, nm = callee(t)
            if nm != 'insert' or not p or not re.search(r'(BTreeMap|HashMap)', p) or len(t[2]) != 3: continue
            vt = b.locals[t[2][2][1][0]] if t[2][2][0] in ('cp', 'mv') else None
            own = None
            for l in D.chain(t[2][0][1][0]):
                for pr, k, x, _ in D.defs.get(l, []):
                    if k == 'rv' and x[0] == 'ref':
                        ty = b.locals[x[2][0]]
                        for e in x[2][1]:
                            if e == '*': ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
                            elif e[0] == 'f':
                                if ty and ty[0] == 'adt' and ty[1].startswith('zserio_rs_build::'): own = (ty[1], e[1])
                                ty = e[2]
            if own is None or not any(x[0] == 'adt' and x[1].startswith(AST) for x in tys(vt)): continue
            c.count('insertions')
            T, rep = depends(C, b, {t[3][0]})
            if rep: c.ok('inserts', 1, where(b, t[-1])); continue
            # or a question whether the name is there decides whether the insertion is reached
            guard = set()
            for j, u in calls(b):
                if callee(u)[1] in ('contains_key', 'get', 'entry') and u[2] and u[2][0][0] in ('cp', 'mv') and node(b.locals[u[2][0][1][0]]) == node(b.locals[t[2][0][1][0]]):
                    T2, _ = depends(C, b, {u[3][0]}, control=False)
                    for n, (st, tt, cl) in enumerate(b.blocks):
                        if not cl and tt[0] == 'switch' and tt[1][0] in ('cp', 'mv') and tt[1][1][0] in T2: guard.add(n)
            ok = False
            for g in guard:
                rs = []
                for m in set(succs(b.blocks[g][1])):
                    seen, todo = set(), [m]
                    while todo:
                        x = todo.pop()
                        if x in seen or x == g or b.blocks[x][2]: continue
                        seen.add(x); todo += succs(b.blocks[x][1])
                    rs.append(i in seen)
                seen, todo = set(), [0]
                while todo:
                    x = todo.pop()
                    if x in seen or x == g or b.blocks[x][2]: continue
                    seen.add(x); todo += succs(b.blocks[x][1])
                if i not in seen and not all(rs): ok = True
            c.check(ok, 'insert:%s' % fieldname(F, own[0], own[1]), '%s stores a declaration under its name without noticing that the name is taken: the other declaration is dropped silently' % where(b, t[-1]), 'inserts', where(b, t[-1]))
    c.floor('insertions', 4)

# ---- the corpus -----------------------------------------------------------------------------------------------------

def corpus(c):
    from checks import schemas
    from engine.layout import norm
    F, G, O, L, missing, res = schemas.setup()
    for m in missing: c.violation('missing:' + m, 'no generated type for %s' % m)
    for r in res:
        left = {k: m for k, m in r.errs.items() if not k.endswith(':align-before-presence')}
        for k, m in left.items(): c.violation('%s:%s' % (schemas.label(r), k), m)
        c.ok('generated types', 1 - r.packed)
    for rt, d in L.pairs.items():
        g = G.types[rt]
        have = {norm(p[len(g.path) + 2:]) for p in F.bodies if p.startswith(g.path + '::')}
        for inst, why in d.values():
            for fn, ft, fe in inst.decl.funcs:
                c.check(norm(fn) in have, 'function:%s.%s' % (inst, fn), 'no generated function for %s of %s' % (fn, inst), 'generated functions')
            if inst.decl.kind == 'enum':
                vs = {norm(v['name']) for v in g.adt['variants']}
                for n in O.enumvals(inst):
                    c.check(norm(n) in vs or any(k.endswith(norm(n)) or k.startswith(norm(n)) for k in vs), 'item:%s.%s' % (inst, n), 'no generated item for %s of %s' % (n, inst), 'generated items')
    by = {}
    for p in F.consts:
        seg = p.split('::')
        if seg[0] == 'corpus': by.setdefault((tuple(norm(y) for y in seg[1:-2]), norm(seg[-1])), []).append(p)
    for p in O.S.packages.values():
        for d in p.decls.values():
            if d.kind == 'const': c.check((tuple(norm(x) for x in p.name), norm(d.name)) in by, 'const:%s.%s' % ('.'.join(p.name), d.name), 'no generated constant for %s' % d.name, 'generated constants')
    c.floor('generated types', 110); c.floor('generated functions', 20); c.floor('generated items', 30); c.floor('generated constants', 10)

def C04(c):
    c.rule('the generator turns the schema corpus (the repository\'s reference modules and a corpus of constructs, modifiers and their combinations) into Rust code, and the compiler accepts that code against the runtime of this tree')
    F = build.load('all')
    from engine.genrun import Gen
    n = sum(1 for b in F.bodies.values() if b.crate == 'corpus')
    c.ok('function bodies type-checked', n)
    import os
    zs = [f for r, _, fs in os.walk(F.dir + '/schemas') for f in fs if f.endswith('.zs')]
    rs = [f for r, _, fs in os.walk(F.dir + '/src') for f in fs if f.endswith('.rs')]
    c.ok('schemas', len(zs)); c.ok('generated files', len(rs))
    c.ok('generated types', len(Gen(F).types))
    c.floor('schemas', 40); c.floor('generated files', 150); c.floor('generated types', 110); c.floor('function bodies type-checked', 1000)
C04.level = 'translation_validation'
C04.note = 'decided by the type checker on the code generated from the corpus; says nothing about schemas outside of it'
C03.level = 'other'
C03.note = 'must-flow analysis of the schema visitor per grammar element, use analysis of the syntax tree, and correspondence on the corpus; the ANTLR runtime and the generated parser are trusted to follow the grammar'
CHECKS = {'C03': C03, 'C04': C04}
