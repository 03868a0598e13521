"""Parser and name resolution for zserio schemas, written from the language's grammar and reference documentation.

It is the oracle for what generated code must do, and shares no code with the generator under analysis."""
import os, re

class SchemaError(Exception): pass

KW = set('''align bit bool bitmask bytes case choice const default enum explicit extend extern float16 float32 float64 function if
implicit import instantiate int int16 int32 int64 int8 isset lengthof numbits on optional package packed pubsub publish return rule
rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic uint16 uint32 uint64
uint8 union using valueof varint varint16 varint32 varint64 varsize varuint varuint16 varuint32 varuint64 zserio_compatibility_version
true false'''.split())
INTS = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64'}
VARS = {'varint', 'varint16', 'varint32', 'varint64', 'varsize', 'varuint', 'varuint16', 'varuint32', 'varuint64'}
OTHER = {'bool', 'string', 'float16', 'float32', 'float64', 'extern', 'bytes'}
BUILTIN = INTS | VARS | OTHER | {'bit', 'int'}
TOK = re.compile(r'''(?P<ws>[\s]+|//[^\n]*|/\*.*?\*/)|(?P<str>"(?:[^"\\\r\n\f]|\\.)*")|(?P<at>@\w+)
|(?P<flt>(?:[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+)[fF]?)
|(?P<hex>0[xX][0-9a-fA-F]+)|(?P<bin>[01]+[bB])|(?P<oct>0[0-7]+)|(?P<dec>[1-9][0-9]*|0)|(?P<id>[A-Za-z_]\w*)
|(?P<op><<|&&|\|\||==|!=|<=|>=|[-&=!:,/.><{\[()\]}%*|+?;~^])''', re.S | re.X)

def lex(text):
    out = []; i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise SchemaError('bad character %r' % text[i])
        k = m.lastgroup; s = m.group()
        if k != 'ws': out.append(('kw' if k == 'id' and s in KW else k, s, text.count('\n', 0, i) + 1))
        i = m.end()
    out.append(('eof', '', 0))
    return out

class TRef:
    """a type as written: builtin or qualified name, template arguments, arguments, width"""
    __slots__ = ('name', 'targs', 'args', 'dyn', 'bits', 'pkg')
    def __init__(s, name, targs=(), args=None, dyn=None, bits=None, pkg=None):
        s.name, s.targs, s.args, s.dyn, s.bits, s.pkg = name, targs, args, dyn, bits, pkg
    def __repr__(s): return '.'.join(s.name) + (':%d' % s.bits if s.bits else '') + ('<%s>' % ','.join(map(repr, s.targs)) if s.targs else '')
class Field:
    __slots__ = ('name', 'type', 'packed', 'implicit', 'array', 'align', 'offset', 'optional', 'cond', 'init', 'constraint', 'extend', 'line')
    def __init__(s, **k):
        for n in s.__slots__: setattr(s, n, k.get(n))
class Decl:
    """kind: struct choice union enum bitmask subtype const instantiate; the rest depends on it"""
    def __init__(s, kind, name, **k):
        s.kind, s.name, s.pkg, s.line = kind, name, None, 0
        s.tparams, s.params, s.fields, s.funcs = [], [], [], []
        s.__dict__.update(k)
    def __repr__(s): return '%s %s' % (s.kind, s.name)
class Package:
    def __init__(s, name): s.name, s.imports, s.decls, s.file = name, [], {}, None

PREC = [(('||',),), (('&&',),), (('|',),), (('^',),), (('&',),), (('==', '!='),), (('<', '<=', '>', '>='),), (('<<', '>>'),), (('+', '-'),), (('*', '/', '%'),)]
PREC = [x[0] for x in PREC]

class Parser:
    def __init__(s, text): s.t = lex(text); s.i = 0
    def peek(s, k=0): return s.t[min(s.i + k, len(s.t) - 1)]
    def at(s, *v): return s.peek()[1] in v and s.peek()[0] in ('op', 'kw', 'at')
    def take(s, *v):
        if s.at(*v): s.i += 1; return s.t[s.i - 1][1]
        return None
    def need(s, *v):
        r = s.take(*v)
        if r is None: raise SchemaError('line %d: expected %s, got %r' % (s.peek()[2], '/'.join(v), s.peek()[1]))
        return r
    def id(s):
        t = s.peek()
        if t[0] != 'id': raise SchemaError('line %d: expected a name, got %r' % (t[2], t[1]))
        s.i += 1; return t[1]
    # ---- expressions
    def expr(s):
        c = s.binary(0)
        if s.take('?'):
            a = s.expr(); s.need(':'); b = s.expr()
            return ('tern', c, a, b)
        return c
    def op_at(s, ops):
        if '>>' in ops and s.peek()[1] == '>' and s.peek(1)[1] == '>': return '>>'
        v = s.peek()
        if v[0] == 'op' and v[1] in ops:
            if v[1] == '>' and s.peek(1)[1] == '>' : return None
            return v[1]
        return None
    nogt = 0
    def binary(s, l):
        if l == len(PREC): return s.unary()
        a = s.binary(l + 1)
        while True:
            o = s.op_at(PREC[l])
            if o is None or (s.nogt and o in ('>', '>>', '>=')): return a
            s.i += 2 if o == '>>' else 1
            a = ('bin', o, a, s.binary(l + 1))
    def unary(s):
        o = s.take('+', '-', '!', '~')
        if o: return ('un', o, s.unary())
        return s.postfix()
    def postfix(s):
        e = s.primary()
        while True:
            if s.at('(') and s.peek(1)[1] == ')': s.i += 2; e = ('call', e)
            elif s.take('['):
                n, s.nogt = s.nogt, 0
                x = s.expr(); s.need(']'); s.nogt = n; e = ('idx', e, x)
            elif s.take('.'): e = ('dot', e, s.id())
            else: return e
    def primary(s):
        k, v, line = s.peek()
        if s.take('('):
            n, s.nogt = s.nogt, 0
            e = s.expr(); s.need(')'); s.nogt = n
            return ('paren', e)
        if k == 'kw' and v in ('isset', 'lengthof', 'valueof', 'numbits'):
            s.i += 1; s.need('(')
            n, s.nogt = s.nogt, 0
            a = s.expr(); r = (v, a)
            if v == 'isset': s.need(','); r = (v, a, s.expr())
            s.need(')'); s.nogt = n
            return r
        s.i += 1
        if k == 'kw' and v in ('true', 'false'): return ('bool', v == 'true')
        if k == 'dec': return ('int', int(v))
        if k == 'hex': return ('int', int(v, 16))
        if k == 'oct': return ('int', int(v, 8))
        if k == 'bin': return ('int', int(v[:-1], 2))
        if k == 'flt': return ('float', float(v.rstrip('fF')))
        if k == 'str': return ('str', unescape(v[1:-1]))
        if k == 'at' and v == '@index': return ('index',)
        if k == 'id': return ('id', v)
        raise SchemaError('line %d: unexpected %r in an expression' % (line, v))
    # ---- types
    def typeref(s):
        k, v, line = s.peek()
        if k == 'kw' and v in BUILTIN:
            s.i += 1
            t = TRef((v,))
            if v in ('bit', 'int') and s.take(':'):
                t.bits = int(s.peek()[1]); s.i += 1
            return t
        n = [s.id()]
        while s.at('.'): s.i += 1; n.append(s.id())
        t = TRef(tuple(n))
        if s.at('<'):
            s.i += 1; a = [s.typeref()]
            while s.take(','): a.append(s.typeref())
            s.need('>'); t.targs = tuple(a)
        return t
    def typeinst(s):
        t = s.typeref()
        if t.name in (('bit',), ('int',)) and t.bits is None and s.take('<'):
            s.nogt += 1; t.dyn = s.expr(); s.nogt -= 1; s.need('>')
        elif s.at('(') and t.name[0] not in BUILTIN:
            s.i += 1; a = []
            while True:
                if s.take('explicit'): a.append(('explicit', s.id()))
                else: a.append(s.expr())
                if not s.take(','): break
            s.need(')'); t.args = a
        return t
    def typeid(s, f):
        f.packed = bool(s.take('packed')); f.implicit = bool(s.take('implicit'))
        f.line = s.peek()[2]
        f.type = s.typeinst(); f.name = s.id(); f.array = None
        if s.take('['):
            f.array = ('auto',)
            if not s.at(']'): f.array = ('len', s.expr())
            if f.implicit: f.array = ('implicit',)
            s.need(']')
    def field(s):
        f = Field()
        if s.take('align'): s.need('('); f.align = s.expr(); s.need(')'); s.need(':')
        save = s.i
        try:
            e = s.expr()
            if not s.take(':'): raise SchemaError('')
            f.offset = e
        except SchemaError: s.i = save
        f.extend = bool(s.take('extend')); f.optional = bool(s.take('optional'))
        s.typeid(f)
        if s.take('='): f.init = s.expr()
        if s.take('if'): f.cond = s.expr()
        if s.take(':'): f.constraint = s.expr()
        s.need(';')
        return f
    def choicefield(s):
        f = Field(); s.typeid(f)
        if s.take(':'): f.constraint = s.expr()
        return f
    def tparams(s):
        r = []
        if s.take('<'):
            r.append(s.id())
            while s.take(','): r.append(s.id())
            s.need('>')
        return r
    def params(s):
        r = []
        if s.take('('):
            while True:
                t = s.typeref(); r.append((s.id(), t))
                if not s.take(','): break
            s.need(')')
        return r
    def funcs(s):
        r = []
        while s.take('function'):
            t = s.typeref(); n = s.id(); s.need('('); s.need(')'); s.need('{'); s.need('return')
            e = s.expr(); s.need(';'); s.need('}'); s.take(';')
            r.append((n, t, e))
        return r
    # ---- declarations
    def package(s):
        if s.take('zserio_compatibility_version'): s.i += 3; s.need(';')
        name = ()
        if s.take('package'):
            n = [s.id()]
            while s.take('.'): n.append(s.id())
            s.need(';'); name = tuple(n)
        p = Package(name)
        while s.take('import'):
            n = [s.id()]; star = False
            while s.take('.'):
                if s.take('*'): star = True; break
                n.append(s.id())
            s.need(';')
            p.imports.append((tuple(n), None) if star else (tuple(n[:-1]), n[-1]))
        while s.peek()[0] != 'eof':
            line = s.peek()[2]
            d = s.decl()
            if d is None: continue
            d.pkg, d.line = p, line
            if d.name in p.decls: raise SchemaError('duplicate %s' % d.name)
            p.decls[d.name] = d
        return p
    def decl(s):
        k = s.need('const', 'subtype', 'struct', 'choice', 'union', 'enum', 'bitmask', 'instantiate', 'rule_group', 'sql_table', 'sql_database', 'service', 'pubsub')
        if k in ('rule_group', 'sql_table', 'sql_database', 'service', 'pubsub'):
            n = s.id(); depth = 0
            while True:
                v = s.peek()
                if v[0] == 'eof': raise SchemaError('unterminated %s' % k)
                s.i += 1
                if v[1] == '{' and v[0] == 'op': depth += 1
                if v[1] == '}' and v[0] == 'op':
                    depth -= 1
                    if depth == 0: break
            s.need(';'); return Decl(k, n)
        if k == 'const':
            t = s.typeinst(); n = s.id(); s.need('='); e = s.expr(); s.need(';')
            return Decl('const', n, type=t, value=e)
        if k in ('subtype', 'instantiate'):
            t = s.typeref(); n = s.id(); s.need(';')
            return Decl(k, n, type=t)
        if k in ('enum', 'bitmask'):
            t = s.typeinst(); n = s.id(); s.need('{'); items = []
            while not s.at('}'):
                flag = s.take('@deprecated', '@removed') if k == 'enum' else None
                i = s.id(); e = s.expr() if s.take('=') else None
                items.append((i, e, flag))
                if not s.take(','): break
            s.need('}'); s.need(';')
            return Decl(k, n, type=t, items=items)
        n = s.id(); tp = s.tparams(); ps = s.params()
        d = Decl(k, n, tparams=tp, params=ps)
        if k == 'struct':
            s.need('{')
            while not s.at('}', 'function'): d.fields.append(s.field())
        elif k == 'union':
            s.need('{')
            while not s.at('}', 'function'): d.fields.append(s.choicefield()); s.need(';')
        else:
            s.need('on'); d.selector = s.expr(); s.need('{'); d.cases = []; d.default = None
            while not s.at('}', 'function'):
                labels = []
                if s.take('default'):
                    s.need(':')
                    f = None if s.at(';') else s.choicefield()
                    s.need(';'); d.default = (f,)
                    if f: d.fields.append(f)
                    continue
                while s.take('case'): labels.append(s.expr()); s.need(':')
                f = None if s.at(';') else s.choicefield()
                s.need(';'); d.cases.append((labels, f))
                if f: d.fields.append(f)
        d.funcs = s.funcs(); s.need('}'); s.need(';')
        return d

def unescape(v):
    def f(m):
        c = m.group(1)
        if c[0] in 'ux': return chr(int(c[1:], 16))
        if c[0] == '0': return chr(int(c, 8))
        return {'r': '\r', 'n': '\n', 't': '\t', 'f': '\f'}.get(c, c)
    return re.sub(r'\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|0[0-7]+|.)', f, v)

# ------------------------------------------------------------------ resolution
class Inst:
    """a declaration with its template arguments (resolved types) bound"""
    __slots__ = ('decl', 'targs', '_k')
    def __init__(s, decl, targs=()): s.decl, s.targs = decl, tuple(targs)
    @property
    def key(s): return (s.decl.pkg.name, s.decl.name, tuple(t.key for t in s.targs))
    def __repr__(s): return s.decl.name + ('<%s>' % ','.join(map(repr, s.targs)) if s.targs else '')
class Ty:
    """a resolved type: builtin (with width) or an instance; args are the unevaluated argument expressions"""
    __slots__ = ('b', 'bits', 'dyn', 'inst', 'args', 'alias')
    def __init__(s, b=None, bits=None, dyn=None, inst=None, args=None, alias=()): s.b, s.bits, s.dyn, s.inst, s.args, s.alias = b, bits, dyn, inst, args, alias
    @property
    def key(s): return (s.b, s.bits) if s.inst is None else s.inst.key
    def __repr__(s): return (s.b + (':%d' % s.bits if s.bits else '<>' if s.dyn else '')) if s.inst is None else repr(s.inst)

class Schemas:
    def __init__(s, root):
        s.packages = {}; s.files = 0
        for r, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.zs'): continue
                try: p = Parser(open(os.path.join(r, f)).read()).package()
                except SchemaError as e: raise SchemaError('%s: %s' % (os.path.join(r, f), e))
                p.file = os.path.relpath(os.path.join(r, f), root)
                if p.name in s.packages: raise SchemaError('package %s declared twice' % '.'.join(p.name))
                s.packages[p.name] = p; s.files += 1
    def lookup(s, pkg, name):
        """resolve a (qualified) name seen from a package"""
        if len(name) > 1:
            q = s.packages.get(tuple(name[:-1]))
            if q is not None and name[-1] in q.decls: return q.decls[name[-1]]
            return None
        n = name[0]
        if n in pkg.decls: return pkg.decls[n]
        for q, only in pkg.imports:
            if only == n and q in s.packages and n in s.packages[q].decls: return s.packages[q].decls[n]
        found = None
        for q, only in pkg.imports:
            if only is None and q in s.packages and n in s.packages[q].decls:
                d = s.packages[q].decls[n]
                if found is not None and found is not d: raise SchemaError('%s is ambiguous in %s' % (n, '.'.join(pkg.name)))
                found = d
        return found
    def resolve(s, t, pkg, env, depth=0):
        """TRef seen in pkg with template environment env -> Ty (subtypes followed)"""
        if depth > 40: raise SchemaError('cyclic type %r' % t)
        if t.name[0] in BUILTIN:
            return Ty(b=t.name[0], bits=t.bits, dyn=t.dyn)
        if len(t.name) == 1 and t.name[0] in env:
            r = env[t.name[0]]
            return Ty(r.b, r.bits, r.dyn, r.inst, t.args if t.args is not None else r.args, r.alias)
        d = s.lookup(pkg, t.name)
        if d is None: raise SchemaError('unknown type %s in package %s' % ('.'.join(t.name), '.'.join(pkg.name)))
        if d.kind in ('subtype', 'instantiate'):
            r = s.resolve(d.type, d.pkg, {}, depth + 1)
            return Ty(r.b, r.bits, r.dyn, r.inst, t.args if t.args is not None else r.args, r.alias + (d,))
        targs = [s.resolve(a, pkg, env, depth + 1) for a in t.targs]
        if len(targs) != len(d.tparams): raise SchemaError('%s takes %d template arguments' % (d.name, len(d.tparams)))
        return Ty(inst=Inst(d, targs), args=t.args)
    def env(s, inst): return dict(zip(inst.decl.tparams, inst.targs))
    def instances(s):
        """every concrete compound/enum/bitmask reachable from the schemas"""
        out = {}
        todo = []
        def add(ty):
            if ty.inst is None: return
            if ty.inst.key not in out:
                out[ty.inst.key] = ty.inst; todo.append(ty.inst)
        for p in s.packages.values():
            for d in p.decls.values():
                if d.kind in ('struct', 'choice', 'union', 'enum', 'bitmask') and not d.tparams: add(Ty(inst=Inst(d)))
                if d.kind in ('subtype', 'instantiate'): add(s.resolve(d.type, p, {}))
        while todo:
            i = todo.pop()
            for t in [t for _, t in i.decl.params] + [f.type for f in i.decl.fields] + [t for _, t, _ in i.decl.funcs]:
                add(s.resolve(t, i.decl.pkg, s.env(i)))
        return out
