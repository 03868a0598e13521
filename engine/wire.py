"""Wire events: what encoders append, what decoders consume, what size functions add up.

A writer run turns an encoder body into a *stream term*: a hash-consed list of wire operations gated by conditions.
A reader run interprets the decoder against that stream: every read must find the operation the writer performed
there, and yields the writer's value term, so both sides' conditions become the same terms."""
from .terms import *
from . import terms as T
from .interp import Interp, State, AnalysisError
from .facts import ty_str

RD = "bitreader::BitReader::<'a>::"
WR = 'rust_bitwriter::BitWriter::'
PACK = 'zserio::ztype::traits::ZserioPackableObject'
ATRAIT = 'zserio::ztype::array_traits::array_trait::ArrayTrait'
ARR = 'zserio::ztype::array::Array::<T>::'
DC = 'zserio::ztype::array_traits::delta_context::DeltaContext::'
X = ('X', 's'); XK = ('X', 'k'); XW = ('X', 'pos')

class Mismatch(Exception): pass

SC = {}      # scalar codec name -> (kind, value type)
for n in (8, 16, 32, 64):
    SC['uint%d' % n] = (('u', INT(n, 'u64')), 'u%d' % n); SC['int%d' % n] = (('i', INT(n, 'u64')), 'i%d' % n)
for n, t in (('varuint16', 'u16'), ('varuint32', 'u32'), ('varuint64', 'u64'), ('varuint', 'u64'), ('varsize', 'u32'),
             ('varint16', 'i16'), ('varint32', 'i32'), ('varint64', 'i64'), ('varint', 'i64'),
             ('float16', 'f32'), ('float32', 'f32'), ('float64', 'f64')):
    SC[n] = ((n,), t)
def reinit():
    T.reinit()
    for n in (8, 16, 32, 64):
        SC['uint%d' % n] = (('u', INT(n, 'u64')), 'u%d' % n); SC['int%d' % n] = (('i', INT(n, 'u64')), 'i%d' % n)

# ------------------------------------------------------------------ stream terms
def SNIL(): return mk('snil')
def SOP(kind, val, tail): return mk('sop', kind, val, tail)
def SLOOP(n, lam, tail): return mk('sloop', n, lam, tail)
def SITE(c, a, b):
    # a loop that is skipped when it would not iterate
    for x, y, k in ((a, b, c), (b, a, NOT(c))):
        if y.op == 'sloop' and y.a[2] is x and k.op == 'bin' and k.a[0] == 'Eq' and isint(k.a[2]) and k.a[2].a[0] == 0 and k.a[1] is y.a[0]: return y
    return ITE(c, a, b)

class Wire:
    """Call policy shared by writer, reader, size and context-initialisation runs."""
    def __init__(self, F, level, mode, prims=None):
        self.F, self.level, self.mode = F, level, mode
        self.viol = []; self.obls = []; self.prims = prims
        self.nops = 0; self.free = 0
        self.params_of = None
    def bad(self, key, msg): self.viol.append((key, msg))
    # ---- classification
    def policy(self, c):
        p = c.path
        r = self.raw(c, p)
        if r is not None: return r
        if self.level in ('gen', 'trait', 'delta', 'array') and p.startswith('zserio::ztype::') and c.trait is None:
            r = self.scalar(c, p.rsplit('::', 1)[1])
            if r is not None: return r
        if self.level == 'gen':
            r = self.gen(c, p)
            if r is not None: return r
        if self.level == 'trait':
            r = self.ctxcall(c, p)
            if r is not None: return r
            if c.trait == PACK: 
                r = self.packobj(c)
                if r is not None: return r
        if self.level in ('delta', 'array'):
            r = self.traitcall(c)
            if r is not None: return r
        if p == 'core::num::<impl u64>::next_multiple_of': return None
        return None
    def nopos(self, c): return mk('app', 'streampos', self.nostate(c), ty='u64')
    def nostate(self, c): return UNIT()
    def raw(self, c, p):
        if p.startswith(WR):
            m = p[len(WR):]
            if m in ('write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_unsigned_bits'): return self.put(c, ('u', width(c.val(2))), tocast(c.val(1), 'u64'))
            if m in ('write_i8', 'write_i16', 'write_i32', 'write_i64', 'write_signed_bits'): return self.put(c, ('i', width(c.val(2))), tocast(c.val(1), 'i64'))
            if m == 'write_bool': return self.put(c, ('bool',), c.val(1))
            if m == 'skip': return self.put(c, ('skip', c.val(1)), UNIT())
            return None
        if p.startswith(RD):
            m = p[len(RD):]
            if m in ('read_u8', 'read_u16', 'read_u32', 'read_u64'): return self.get(c, ('u', width(c.val(1))), m[5:])
            if m in ('read_i8', 'read_i16', 'read_i32', 'read_i64'): return self.get(c, ('i', width(c.val(1))), m[5:])
            if m == 'read_bool': return self.get(c, ('bool',), 'bool')
            if m == 'skip': return self.get(c, ('skip', c.val(1)), None)
            if m == 'read_u8_slice':
                v = c.load(1); n = LEN(v)
                r = self.get(c, ('slice', n), None)
                if r is not None: c.store(1, PROJ(r, ('f', 0, 0)))
                return OK(UNIT())
        return None
    def scalar(self, c, nm):
        if nm.startswith('write_') and nm[6:] in SC:
            k, t = SC[nm[6:]]
            v = c.val(1)
            if k[0] in ('u', 'i'): v = tocast(v, k[0] + '64')
            return self.put(c, k, v)
        if nm.startswith('read_') and nm[5:] in SC:
            k, t = SC[nm[5:]]
            return self.get(c, k, t)
        if nm == 'write_unsigned_bits': return self.put(c, ('u', width(c.val(2))), tocast(c.val(1), 'u64'))
        if nm == 'write_signed_bits': return self.put(c, ('i', width(c.val(2))), tocast(c.val(1), 'i64'))
        if nm == 'read_unsigned_bits': return self.get(c, ('u', width(c.val(1))), 'u64')
        if nm == 'read_signed_bits': return self.get(c, ('i', width(c.val(1))), 'i64')
        if nm in ('write_string', 'write_bytes_type', 'write_extern_type'): return self.put(c, (nm[6:].replace('_type', ''),), whole(c.deep(c.load(1))))
        if nm in ('read_string', 'read_bytes_type', 'read_extern_type'): return self.get(c, (nm[5:].replace('_type', ''),), None)
        if nm.endswith('_bitsize') and nm[:-8] in SC: return OK(mk('app', 'size', nm[:-8], tocast(c.val(0), SC[nm[:-8]][1]), ty='u8'))
        if nm in ('bitsize_string',):
            r = mk('app', 'size', 'string', whole(c.deep(c.load(0))), ty='u64')
            return OK(r)
        if nm in ('bitsize_of_bytes', 'bitsize_of_extern'): return OK(mk('app', 'size', nm[11:], whole(c.deep(c.load(0))), ty='u64'))
        if nm == 'align_writer': return self.put(c, ('align', tocast(c.val(1), 'u64')), UNIT())
        if nm == 'align_reader': return self.get(c, ('align', tocast(c.val(1), 'u64')), None)
        if nm == 'align_bitsize': return mk('app', 'pad', c.val(0), tocast(c.val(1), 'u64'), ty='u64')
        if nm == 'align_to': return mk('app', 'alignto', c.val(1), tocast(c.val(0), 'u64'), ty='u64')
        return None
    def packobj(self, c):
        Ts = c.key[1][0] if c.key[1] else None
        n = c.name
        if n == 'zserio_write': return self.put(c, ('obj', Ts), whole(c.deep(c.load(0))))
        if n == 'zserio_read': return self.getobj(c, ('obj', Ts), Ts)
        if n == 'zserio_bitsize': return OK(mk('app', 'objsize', str(Ts), whole(c.deep(c.load(0))), c.val(1), ty='u64'))
        if n == 'zserio_create_packing_context':
            c.store(0, mk('app', 'ctxshape', str(Ts))); return UNIT()
        if n in ('zserio_write_packed', 'zserio_init_packing_context'):
            w = self.ctxref(c, 1, Ts)
            return self.put(c, ('objp', Ts, w), whole(c.deep(c.load(0))))
        if n == 'zserio_read_packed':
            w = self.ctxref(c, 1, Ts)
            return self.getobj(c, ('objp', Ts, w), Ts)
        if n == 'zserio_bitsize_packed':
            w = self.ctxref(c, 1, Ts)
            return OK(mk('app', 'objpsize', str(Ts), w, whole(c.deep(c.load(0))), c.val(2), ty='u64'))
        return None
    def ctxref(self, c, i, Ts):
        r = c.val(i)
        if r.op != 'ref' or r.a[0] != ('P', SYM('ctx')):
            return 'root' if r is SYM('ctx') else 'dyn:' + show(c.deep(r), 4)
        node = c.load(i)
        if Ts is not None and self.level == 'gen':
            want = mk('app', 'ctxshape', str(Ts))
            if node is not want:
                self.bad('ctxshape', '%s line %s: %s is packed with context node %s whose shape is %s' % (c.fr.body.path, c.line, ty_str(Ts), pathstr(r.a[1]), show(node, 3)))
        return pathstr(r.a[1])
    def ctxcall(self, c, p):
        if not p.startswith(DC): return None
        m = p[len(DC):]
        if m in ('write', 'init'):
            w = self.dcref(c, 0); tr = whole(c.deep(c.load(1)))
            e = c.args[3 if m == 'write' else 2]
            return self.put(c, ('ctx', w, tr), whole(c.deep(c.I.deref_val(c.st, e))))
        if m == 'read':
            w = self.dcref(c, 0); tr = whole(c.deep(c.load(1)))
            self.ctxtypes = c.targs
            r = self.get(c, ('ctx', w, tr), None)
            c.store(3, PROJ(r, ('f', 0, 0)))
            return OK(UNIT())
        if m == 'bitsize_of':
            w = self.dcref(c, 0); tr = whole(c.deep(c.load(1)))
            return OK(mk('app', 'ctxsize', w, tr, whole(c.deep(c.load(3))), ty='u64'))
        return None
    def dcref(self, c, i):
        r = c.val(i)
        if r.op == 'ref' and r.a[0] == ('P', SYM('ctx')): return pathstr(r.a[1])
        return 'dyn:' + show(c.deep(r), 4)
    def gen(self, c, p):
        if p == 'zserio::numbits::numbits': return mk('app', 'numbits', tocast(c.val(0), 'i64'), ty='u8')
        if c.trait == PACK: return self.packobj(c)
        r = self.ctxcall(c, p)
        if r is not None: return r
        if p.startswith(ARR):
            m = p[len(ARR):]
            A = c.load(0); D = arrdesc(c, A)
            fixed = arrfield(A, 2)
            some = c.I.decide(c.st, is_some(fixed))
            offs = lambda i: mk('app', 'offs', is_some(c.val(i)))
            if m == 'zserio_write':
                data = whole(c.deep(c.load(2)))
                if some is None: raise AnalysisError('array size mode undecided')
                if some: self.fact(c, BIN('Eq', LEN(data), PROJ(fixed, ('f', 1, 0)), 'bool'))
                else: self.put(c, ('alen',), LEN(data))
                return self.put(c, ('elems', D, offs(3)), data)
            if m == 'zserio_read_array_length':
                if some is None: raise AnalysisError('array size mode undecided')
                if some: return OK(PROJ(fixed, ('f', 1, 0)))
                return self.get(c, ('alen',), 'usize')
            if m == 'zserio_read': return self.getelems(c, D, offs(4))
            if m == 'read_one_element': return self.getone(c, D, offs(5))
            if m in ('zserio_bitsize', 'zserio_bitsize_packed'):
                data = whole(c.deep(c.load(1)))
                Dm = D
                if m == 'zserio_bitsize_packed': Dm = mk('adesc', D.a[0], BOOL(True), D.a[2])
                v = mk('app', 'elemsize', Dm, offs(2), data, c.val(3) if some else mk('bin', 'Add', c.val(3), mk('app', 'size', 'alen', LEN(data), ty='u64'), ty='u64'), ty='u64')
                if some: return OK(v)
                return OK(mk('bin', 'Add', v, mk('app', 'size', 'alen', LEN(data), ty='u64'), ty='u64'))
            return None
        if c.trait == ATRAIT and c.name == 'create_context':
            return mk('app', 'actx', whole(c.deep(c.load(0))))
        return None
    def traitcall(self, c):
        if c.trait != ATRAIT: return None
        n = c.name
        tr = whole(c.deep(c.load(0)))
        el = lambda i: whole(c.deep(c.I.deref_val(c.st, c.args[i])))
        if n == 'write': return self.put(c, ('elem', tr), el(2))
        if n == 'read':
            r = self.get(c, ('elem', tr), None); c.store(2, okv(r)); return OK(UNIT())
        if n == 'write_packed': return self.put(c, ('elemp', tr, self.actx(c, 1)), el(3))
        if n == 'read_packed':
            r = self.get(c, ('elemp', tr, self.actx(c, 1)), None); c.store(3, okv(r)); return OK(UNIT())
        if n == 'init_context': return self.put(c, ('einit', tr, self.actx(c, 1)), el(2))
        if n == 'create_context':
            if self.level != 'array': return mk('app', 'actx', tr)
            self.nctx = getattr(self, 'nctx', 0) + 1
            if not hasattr(self, 'ctxuse'): self.ctxuse = []
            self.ctxuse.append(('create', self.nctx, c.I.loopdepth, c.line))
            return mk('app', 'actxn', tr, self.nctx)
        if n == 'bitsize_of': return OK(mk('app', 'elsize', tr, el(2), c.val(1), ty='u64'))
        if n == 'bitsize_of_packed': return OK(mk('app', 'elpsize', tr, self.actx(c, 1), el(3), c.val(2), ty='u64'))
        if n == 'is_bitsizeof_constant': return mk('app', 'constsize', tr, ty='bool')
        if n == 'to_u64': return mk('app', 'to_u64', tr, el(1), ty='u64')
        if n == 'from_u64': return mk('app', 'from_u64', tr, c.val(1))
        return None
    def actx(self, c, i):
        v = whole(c.deep(c.load(i)))
        if v.op == 'app' and v.a[0] == 'actxn':
            self.ctxuse.append((c.name, v.a[2], c.I.loopdepth, c.line))
            return mk('app', 'actx', v.a[1])
        return v

    # ---- effects on the stream, per mode
    def put(self, c, kind, val):
        self.nops += 1
        c.op('put', mk('kind', *kind), val)
        return OK(UNIT())
    def fact(self, c, cond):
        if cond.op == 'int': 
            if not cond.a[0]: c.op('never')
            return
        c.op('fact', cond)
        c.I.assume(c.st, cond, True)
    def get(self, c, kind, t):
        raise AnalysisError('read in a %s run' % self.mode)
    getobj = getelems = getone = get

def okv(r): return PROJ(r, ('f', 0, 0))
def width(n): return tocast(n, 'u64')
def tocast(v, t):
    if v.ty in WIDTH and v.ty != t: return CAST(v, v.ty, t)
    if v.ty is None and v.op != 'undef': v.ty = t
    return v
def whole(v):
    while v.op == 'deref_of': v = v.a[0]
    return v
OPTD = {'variants': [{'discr': '0'}, {'discr': '1'}]}
def is_some(v): return BIN('Eq', DISCR(v, OPTD), INT(1, 'i128'), 'bool')
def arrfield(A, i): return PROJ(A, ('f', None, i))
def arrdesc(c, A):
    tr = whole(c.deep(arrfield(A, 0)))
    return mk('adesc', tr, arrfield(A, 1), str(c.targs[0]) if c.targs else '')
def pathstr(path):
    out = []
    for k in path:
        if k[0] == 'f': out.append('%s' % k[2] if k[1] is None else 'v%d.%d' % (k[1], k[2]))
        elif k[0] == 'i': out.append('[%s]' % show(k[1], 4))
        else: out.append(str(k[0]))
    return '.'.join(out) or '.'

# ------------------------------------------------------------------ writer runs
def flat(eff):
    for e in eff:
        if e[0] == 'call': yield from flat(e[3])
        else: yield e

def setup_run(F, body, policy, args, env=None, decide=None, I=None):
    I = I or Interp(F, policy=policy)
    I.decide_hook = decide
    st = State()
    tsub = {}
    fr = I.new_frame(body, tsub, 0)
    for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
    if env: st.env.update(env)
    outs = I.run(fr, 0, {}, st)
    return I, fr, outs

def assertloop(L):
    """facts of a loop that only checks"""
    out = []
    for e in flat(L.eff):
        if e[0] in ('fail', 'panic'): out.append(NOT(e[1]))
        elif e[0] in ('op', 'loop', 'havoc'): return None
        elif e[0] == 'if':
            if any(x[0] in ('op', 'loop', 'havoc') for x in flat(e[2] + e[3])): return None
    return out

def stream(eff, tail, end=None):
    """effect list -> stream term (continuation form)"""
    es = list(flat(eff))
    s = tail
    for e in reversed(es):
        k = e[0]
        if k == 'op':
            if e[1] == 'put': s = SOP(e[2][0], e[2][1], s)
            elif e[1] == 'fact': s = mk('sfact', e[2][0], s)
            elif e[1] == 'never': s = mk('sdead')
        elif k in ('fail', 'panic'):
            if e[1].op == 'int' and e[1].a[0]: s = mk('sdead')
            elif e[1].op != 'int' and not opaque_fail(e[1]): s = mk('sfact', NOT(e[1]), s)
        elif k == 'panicpath': s = mk('sfact', NOT(e[1]) if True else e[1], s)
        elif k == 'if':
            a, b = stream(e[2], s), stream(e[3], s)
            if a.op == 'sdead': s = b
            elif b.op == 'sdead': s = a
            else: s = SITE(e[1], a, b)
        elif k == 'loop':
            L = e[1]
            fs = assertloop(L)
            if fs is not None:
                if L.n is not None and L.i is not None:
                    for f in fs:
                        if f.op != 'int' and not opaque_fail(f): s = mk('sfact', mk('forall', L.n, mk('lam', L.i, f), ty='bool'), s)
                continue
            if L.n is None or L.i is None: raise AnalysisError('loop without a trip count at %s writes' % (L.site,))
            for p in L.phis:
                if p[1] is not L.i and mentions(L.eff, p[1]): raise AnalysisError('loop at %s writes values that depend on earlier iterations' % (L.site,))
            ini = [p[2] for p in L.phis if p[1] is L.i]
            if ini and not (isint(ini[0]) and ini[0].a[0] == 0): raise AnalysisError('loop at %s does not start at 0' % (L.site,))
            i = SYM('i#', L.i.ty)
            s = SLOOP(L.n, mk('lam', i, subst_stream(stream(L.eff, mk('sback')), {L.i: i})), s)
        elif k == 'guard':
            pass
        elif k == 'havoc': raise AnalysisError('unknown call %s may write' % (e[1],))
    return s
def opaque_fail(c): return any(x.op in ('isok',) for x in walk(c))
def mentions(eff, x):
    def go(eff):
        for e in flat(eff):
            if e[0] == 'if':
                if any(y is x for y in walk(e[1])) or go(e[2]) or go(e[3]): return True
            elif e[0] == 'loop':
                if go(e[1].eff): return True
            elif e[0] == 'op':
                if any(y is x for a in e[2] if isinstance(a, N) for y in walk(a)): return True
        return False
    return go(eff)
def subst_stream(s, m):
    memo = {}
    def go(x):
        r = m.get(x)
        if r is not None: return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r.op == 'ite' and x.op == 'ite' and r.a[1].op in ('sop', 'sloop', 'snil', 'sfact', 'ite', 'sback'): pass
            memo[x] = r
        return r
    return go(s)
