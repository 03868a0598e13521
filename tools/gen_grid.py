#!/usr/bin/env python3
"""writes the combinatorial part of the schema corpus (corpus/schemas/vcorpus/grid*.zs): every kind of type x array form x
presence x alignment in structs, every kind x form in choices and unions, and parameterised elements with every mix of arguments"""
import os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(R, 'corpus/schemas/vcorpus')
TYPES = [('Boolean', 'bool'), ('Bits', 'bit:5'), ('Ints', 'int:11'), ('DynBits', 'bit<w>'), ('DynInts', 'int<w>'), ('Uint16', 'uint16'), ('Int64', 'int64'), ('Varint32', 'varint32'),
         ('Varuint', 'varuint'), ('Varsize', 'varsize'), ('Float16', 'float16'), ('Float64', 'float64'), ('Text', 'string'), ('Blob', 'bytes'), ('Ext', 'extern'), ('Obj', 'Inner'), ('Enumeration', 'Kind'), ('Mask', 'Rights'),
         ('Uni', 'Uni'), ('Cho', 'Cho(w)'), ('Par', 'Par(w, base)'), ('SubInt', 'SubInt'), ('SubObj', 'SubObj'), ('SubEnum', 'SubEnum'), ('Tmpl', 'Tmpl<varint16>')]
FORMS = [('one', '%s %s'), ('any', '%s %s[]'), ('fixed', '%s %s[3]'), ('sized', '%s %s[n]'), ('pauto', 'packed %s %s[]'), ('pfixed', 'packed %s %s[3]'), ('psized', 'packed %s %s[n / 2]')]
PRES = [('', '%s;'), ('Opt', 'optional %s;'), ('If', '%s if w > 3;')]
COMMON = '''import vcorpus.scalars.*;
'''
DEFS = COMMON + '''
union Uni { uint8 a; Inner b; string c; };
choice Cho(uint8 sel) on sel { case 1: uint8 a; case 2: packed uint16 b[]; default: ; };
struct Par(uint8 k, Inner base) { uint16 a if k == 1; bit<k> b; Inner c if base.x > k; uint8 d[k]; };
subtype uint32 SubInt;
subtype Inner SubObj;
subtype Kind SubEnum;
struct Tmpl<T> { T t; T ts[]; packed T ps[]; };
'''
def heads(t): return '    uint8 w;\n    uint8 n;\n' + ('    Inner base;\n' if 'base' in t else '')

def fields():
    out = ['package vcorpus.gridfields;\n\n' + DEFS]
    for name, t in TYPES:
        out.append('struct F%s\n{\n%s' % (name, heads(t)))
        for fn, f in FORMS:
            for pn, p in PRES: out.append('    ' + p % (f % (t, fn + pn)) + '\n')
        for fn, f in FORMS: out.append('    align(%d):\n    %s;\n' % ({'one': 8, 'any': 16, 'fixed': 24, 'sized': 32, 'pauto': 3, 'pfixed': 64, 'psized': 8}[fn], f % (t, fn + 'Al')))
        out.append('};\n\n')
    return ''.join(out)

def cases():
    out = ['package vcorpus.gridcases;\n\nimport vcorpus.gridfields.*;\n' + COMMON + '\n']
    for i, (name, t) in enumerate(TYPES):
        base = ', Inner base' if 'base' in t else ''
        out.append('choice C%s(uint8 sel, uint8 w, uint8 n%s) on sel\n{\n' % (name, base))
        for j, (fn, f) in enumerate(FORMS): out.append('    case %d: %s;\n' % (j, f % (t, fn)) if j < 6 else '    default: %s;\n' % (f % (t, fn)))
        out.append('};\n\nunion U%s(uint8 w, uint8 n%s)\n{\n' % (name, base))
        for fn, f in FORMS: out.append('    %s;\n' % (f % (t, fn)))
        out.append('};\n\n')
    for i, (name, t) in enumerate(TYPES):
        b = ', base' if 'base' in t else ''
        c = 'C%s(sel, w, n%s)' % (name, b); u = 'U%s(w, n%s)' % (name, b)
        if i % 5 == 0: out.append('struct Holder%d\n{\n    uint8 sel;\n    uint8 w;\n    uint8 n;\n    Inner base;\n' % (i // 5))
        for j, x in enumerate((c, u)): out.append('    %s;\n' % (['%s %s', 'optional %s %s', '%s %s[]', 'packed %s %s[]'][(i + 2 * j) % 4] % (x, 'cu'[j] + name)))
        if i % 5 == 4: out.append('};\n\n')
    return ''.join(out)

HEAD = '''struct Params%d(uint8 p, Inner q)
{
    uint8 n;
    uint16 m;
    bool flag;
    Kind kind;
    uint8 ns[3];
    uint16 ms[3];
    Inner inners[3];
'''

def params():
    """elements with one to three parameters, each argument a literal, a field, a member, a length, an expression or an indexed element"""
    out = ['package vcorpus.gridparams;\n\n' + COMMON + '''
struct One(uint8 a) { bit:4 x if a > 2; uint8 xs[a]; };
struct Two(uint8 a, uint16 b) { uint8 x if a > 0; uint8 y if b > 0; packed uint8 z[b]; };
struct Three(uint8 a, uint16 b, Inner c) { uint8 x if a > b; Two(a, b) t; uint8 y if c.x > 0; };
struct KindIf(Kind k) { uint16 y if k == Kind.ONE; };
choice Sel(uint8 a, Kind k) on a { case 0: uint8 x; case 1: uint16 y; case 2: KindIf(k) i; default: Two(a, 2) z; };
union Alt(uint8 a, bool f) { uint8 x[a]; Two(a, 1) y; bool z; One(a) w[]; };

''']
    A = dict(a=['3', 'n', 'p', 'q.x', 'n / 2', 'ns[@index]', 'ns[@index] % 4', 'inners[@index].x', 'lengthof(ns)'], b=['300', 'm', 'p', 'm / 2', 'ms[@index]', 'n', 'lengthof(ms)'], c=['q', 'inners[@index]', 'inners[0]'], k=['kind', 'Kind.ONE'], f=['flag', 'n > 3', '!flag'])
    sets = []
    for x in A['a']: sets.append('One(%s)' % x)
    for i, x in enumerate(A['a']):
        for j, y in enumerate(A['b']):
            ix, iy = '@' in x, '@' in y
            if (i + j) % 3 == 0 or (ix != iy and (i + 2 * j) % 3 == 1) or (ix and iy): sets.append('Two(%s, %s)' % (x, y))
    for i, x in enumerate(A['a']):
        for j, y in enumerate(A['b']):
            for k, z in enumerate(A['c']):
                if (i * 5 + j * 3 + k) % 11 == 0: sets.append('Three(%s, %s, %s)' % (x, y, z))
    for i, x in enumerate(A['a']): sets.append('Sel(%s, %s)' % (x, A['k'][i % 2])); sets.append('Alt(%s, %s)' % (x, A['f'][i % 3]))
    ARR = ['%s %s[3]', 'packed %s %s[3]', 'optional %s %s[3]', 'optional packed %s %s[3]', '%s %s[3] if flag', 'packed %s %s[3] if n > 1']
    ONE = ['%s %s', 'optional %s %s', '%s %s if flag', '%s %s[]', 'packed %s %s[]', 'optional %s %s[n]', '%s %s[n]', 'optional packed %s %s[]']
    for i, s in enumerate(sets):
        fs = ARR if '@' in s else ONE
        if i % 6 == 0: out.append(('};\n\n' if i else '') + HEAD % (i // 6))
        for j in range(2 if i % 2 else 3): out.append('    %s;\n' % (fs[(i + 3 * j) % len(fs)] % (s, 'f%d%s' % (i, 'abc'[j]))))
    out.append('};\n\nstruct OneP { uint8 z; One(z) ones[]; packed One(z) pones[]; };\nstruct Nest { uint8 p; Inner q; Params0(p, q) all; packed OneP ps[]; };\n')
    return ''.join(out)

def offsets():
    out = ['package vcorpus.gridoffsets;\n\nimport vcorpus.gridfields.*;\n' + COMMON + '\n']
    W = ['uint8', 'uint16', 'uint32', 'uint64']
    for i, (name, t) in enumerate(TYPES):
        out.append('struct O%s\n{\n%s' % (name, heads(t)))
        for j, (fn, f) in enumerate(FORMS):
            o = W[(i + j) % 4]
            if fn == 'one':
                out.append('    %s off%s;\n    %s offo;\n    bit:3 pad%d;\noff%s:\n    %s;\noffo:\n    %s if n > 1;\n' % (o, fn, o, j, fn, f % (t, fn), f % (t, fn + 'If')))
            else:
                out.append('    %s offs%s[];\n    bit:%d pad%d;\noffs%s[@index]:\n    %s;\n' % (o, fn, 1 + (i + j) % 7, j, fn, f % (t, fn)))
                if j % 2: out.append('    uint32 whole%s;\nwhole%s:\n    %s;\n' % (fn, fn, f % (t, fn + 'Whole')))
        out.append('};\n\n')
    return ''.join(out)

for n, f in (('gridfields', fields), ('gridcases', cases), ('gridparams', params), ('gridoffsets', offsets)):
    open(os.path.join(OUT, n + '.zs'), 'w').write(f())
