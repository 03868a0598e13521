"""A01: the top-level API (to_bytes, to_writer, from_bytes, from_reader, from_file, ExternType::from_object)."""
from engine import build
from checks.runtime import *

def T_(name, *a): return mk('app', name, *a)

class Api:
    """Call policy: objects, the bit writer/reader, sinks, sources and files as fallible primitives over terms."""
    def __init__(self): self.nops = 0
    def fal(self, c, name, okval, *args):
        r = c.I.fresh_res('%s' % name, okval)
        c.op(name, *args, res=r)
        return r
    def obj(self, c, i):
        v = c.deep(c.load(i))
        while v.op == 'deref_of': v = v.a[0]
        return v
    def through(self, c, i):
        """the place a (possibly nested) reference argument finally names"""
        a = c.args[i]
        while True:
            v = c.I.deref_val(c.st, a)
            if v.op == 'ref' or (v.op == 'app' and v.a[0] == 'file'): 
                if v.op == 'ref': a = v; continue
            return a, v
    def policy(self, c):
        p = c.path
        if p == WR + 'new' or p.startswith('<rust_bitwriter::BitWriter as core::default::Default>'): return T_('bw0')
        if p == WR + 'close':
            v = c.load(0); c.store(0, T_('bw_closed', v))
            return self.fal(c, 'close', UNIT(), v)
        if p == WR + 'data':
            return c.I.REF(c.I.heap(c.st, T_('bw_bytes', c.load(0))))
        if p.startswith(WR):
            v = c.load(0); c.store(0, T_('bw_other', p, v, *[x for x in c.args[1:]]))
            return self.fal(c, p, UNIT(), v)
        if p == RD + 'new':
            return T_('br0', self.obj(c, 0))
        if p.startswith(RD):
            c.store(0, T_('br_other', p, c.load(0))); return self.fal(c, p, UNIT())
        if c.trait == PACK:
            if c.name == 'zserio_write':
                v, w = self.obj(c, 0), c.load(1)
                c.store(1, T_('bw_obj', w, v)); return self.fal(c, 'zserio_write', UNIT(), v, w)
            if c.name == 'zserio_read':
                v, r = c.load(0), c.load(1)
                c.store(0, T_('decoded', v, r)); c.store(1, T_('br_after', r)); return self.fal(c, 'zserio_read', UNIT(), v, r)
            if c.name == 'zserio_bitsize':
                v = self.obj(c, 0)
                return self.fal(c, 'zserio_bitsize', mk('app', 'bits', v, c.val(1), ty='u64'), v)
        if c.name == 'default' and c.trait == 'core::default::Default' and c.targs and c.targs[0][0] == 'param': return T_('default')
        if c.trait in ('core::io::write::Write', 'std::io::Write', 'std::io::write::Write', 'alloc::io::write::Write') :
            if c.name == 'write_all':
                a, v = self.through(c, 0)
                d = self.obj(c, 1)
                self.put(c, a, T_('sink', v, d)); return self.fal(c, 'write_all', UNIT(), d)
            if c.name == 'flush': return self.fal(c, 'flush', UNIT())
            if c.name == 'by_ref': return c.args[0]
        if c.trait and c.trait.endswith('::Read') and '::io::' in c.trait:
            if c.name == 'read_to_end':
                a, v = self.through(c, 0)
                b = c.load(1)
                while v.op == 'app' and v.a[0] == 'buffered': v = v.a[1]
                new = T_('all', v) if b.op == 'vecnew' or (b.op == 'build' and isint(b.a[1]) and b.a[1].a[0] == 0) else T_('append', b, T_('all', v))
                c.store(1, new); self.put(c, a, T_('drained', v))
                return self.fal(c, 'read_to_end', LEN(T_('all', v)), v)
            if c.name == 'by_ref': return c.args[0]
        if p in ('std::fs::File::open',):
            f = T_('file', c.deep(c.val(0)))
            return self.fal(c, 'open', f)
        if p in ('std::fs::read',):
            return self.fal(c, 'fsread', T_('all', T_('file', c.deep(c.val(0)))))
        if 'BufReader' in p and '::io::' in p and c.name in ('new', 'with_capacity'):
            return T_('buffered', c.deep(c.args[-1]))
        if c.name in ('as_ref', 'borrow') and c.trait in ('core::convert::AsRef', 'core::borrow::Borrow') and len(c.args) == 1 and c.targs and c.targs[0][0] == 'param': return c.args[0]
        return None
    def put(self, c, a, v):
        if a.op == 'ref': c.I.store_ref(c.st, a, v)

def strip_deref(t):
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is None:
            y = rebuild(x, go) if x.op not in ('int', 'sym', 'fnitem', 'str', 'ref') else x
            while y.op == 'deref_of': y = y.a[0]
            r = memo[x] = y
        return r
    return go(t)

def deepflat(eff):
    for e in flat(eff):
        yield e
        if e[0] == 'if':
            yield from deepflat(e[2]); yield from deepflat(e[3])

def apirun(F, name):
    b = F.bodies.get('zserio::' + name)
    if b is None: raise AnalysisError('function zserio::%s is gone' % name)
    A = Api(); I = Interp(F, policy=A.policy); A.I = I
    st = State(); fr = I.new_frame(b, {}, 0)
    for i in range(b.nargs if hasattr(b, 'nargs') else 3): st.env[('L', fr.fid, i + 1)] = SYM('a%d' % i)
    outs = I.run(fr, 0, {}, st)
    s = outs.get('ret')
    if s is None: raise AnalysisError('%s never returns normally' % name)
    ret = strip_deref(I.deep(s, s.env.get(('L', fr.fid, 0), UNIT())))
    return I, s, ret, b

def A01(c):
    c.rule('the public entry points are interpreted with the object codec, bit writer/reader, sink, source and file as primitives: the bytes returned or handed to the sink are exactly those of a fresh bit writer, to which the object was written once, after close(); '
           'decoding starts a fresh reader over all bytes of the slice, stream or file and returns the default object after one zserio_read; nothing else happens to the data')
    c.rule('every fallible step (also of inlined helpers) has its failure propagated or is the returned result; nothing else makes the operation fail')
    c.assumptions += ['BitWriter::close pads the last byte with zero bits and data() then holds all written bits', 'read_to_end appends the complete remaining stream', 'write_all writes the complete slice']
    F = build.load('rt')
    v = lambda i: mk('deref', SYM('a%d' % i))
    bytes_of = lambda o: T_('bw_bytes', T_('bw_closed', T_('bw_obj', T_('bw0'), o)))
    dec = lambda d: T_('decoded', T_('default'), T_('br0', d))
    bits = mk('app', 'bits', v(0), INT(0, 'u64'), ty='u64')
    cases = [('to_bytes', bytes_of(v(0)), ['zserio_write', 'close']),
             ('to_writer', UNIT(), ['zserio_write', 'close', 'write_all']),
             ('from_bytes', dec(v(0)), ['zserio_read']),
             ('from_reader', dec(T_('all', SYM('a0'))), ['read_to_end', 'zserio_read']),
             ('from_file', dec(T_('all', T_('file', SYM('a0')))), ['open', 'read_to_end', 'zserio_read']),
             ('ztype::extern_type::ExternType::from_object', None, None)]
    for name, want, order in cases:
        def go():
            I, s, ret, b = apirun(F, name)
            def ob(cond, key, msg, sample=None): c.check(cond, '%s:%s' % (name, key), msg, 'entry point obligations', sample)
            events = list(deepflat(s.eff))
            ops = [e for e in events if e[0] == 'op']
            fails = [e for e in events if e[0] == 'fail']
            for e in events:
                if e[0] == 'havoc': ob(False, 'unknown:' + e[1], '%s passes its data through %s (line %s), whose effect is not known' % (b.path, e[1], e[3][1]))
                if e[0] == 'if' and any(x[0] == 'op' for x in deepflat([e])): ob(False, 'conditional', '%s performs %s only when %s' % (b.path, next(x[1] for x in deepflat([e]) if x[0] == 'op'), show(e[1], 5)))
                if e[0] == 'loop': ob(False, 'loop', '%s moves data in a loop' % b.path)
            names = [e[1] for e in ops]
            if order is not None:
                alt = [x for x in names if x not in ('flush', 'reserve')]
                if alt and alt[0] == 'fsread': alt = ['open', 'read_to_end'] + alt[1:]
                ob(alt == order, 'steps', '%s performs %s instead of %s' % (b.path, alt, order), '%s: %s' % (b.path, ' -> '.join(order)))
            val = okpart(ret)
            if name.endswith('from_object'):
                ad = F.adts['zserio::ztype::extern_type::ExternType']['variants'][0]['fields']
                si = next(i for i, f in enumerate(ad) if f[0] == 'bit_size'); di = next(i for i, f in enumerate(ad) if f[0] == 'data_blob')
                ob(PROJ(val, ('f', None, si)) is CAST(bits, 'u64', 'u32'), 'bits', '%s states the size %s instead of the object\'s bit size at position 0' % (b.path, show(PROJ(val, ('f', None, si)), 6)), 'extern bit size')
                ob(PROJ(val, ('f', None, di)) is bytes_of(v(0)), 'data', '%s holds %s instead of the object\'s bytes' % (b.path, show(PROJ(val, ('f', None, di)), 7)), 'extern data')
                fit = BIN('Le', bits, INT(2**32 - 1, 'u64'), 'bool')
                ob(any(e[1] is NOT(fit) for e in fails), 'fit', '%s does not reject objects whose bit size exceeds u32' % b.path, 'extern size overflow rejected')
            elif name == 'to_writer':
                out = next((e for e in ops if e[1] == 'write_all'), None)
                ob(out is not None and strip_deref(out[2][0]) is bytes_of(v(1)), 'data', '%s gives the sink %s instead of the object\'s complete bytes' % (b.path, show(strip_deref(out[2][0]), 7) if out else 'nothing'), 'sink bytes')
                fin = s.env.get(('L', 1, 1))
            else:
                ob(val is want, 'value', '%s yields %s instead of %s' % (b.path, show(val, 8), show(want, 8)), '%s = %s' % (b.path, show(want, 8)))
            # failures
            known = set()
            for e in ops:
                if e[3] is not None: known.add(e[3].a[0])
            def calls(eff):
                for e in eff:
                    if e[0] == 'call':
                        if e[2]: known.add(e[2])
                        calls(e[3])
                    elif e[0] == 'if': calls(e[2]); calls(e[3])
            calls(s.eff)
            for tag in sorted(known):
                while tag in I.handed: tag = I.handed[tag]
                hit = any(e[1] is NOT(mk('isok', tag, ty='bool')) for e in fails) or (ret.op == 'res' and ret.a[0] == tag)
                if not hit and ret.op == 'ite':
                    st2 = assumed_I(I, [(mk('isok', tag, ty='bool'), False)])
                    r2 = I.simp_top(st2, ret)
                    hit = r2.op == 'adt' and r2.a[1] == 1
                ob(hit, 'swallowed:' + tag.split('#')[0], '%s can return success although %s failed' % (b.path, tag.split('#')[0]), None)
            allowed = [mk('isok', t, ty='bool') for t in known]
            for e in fails:
                if any(e[1] is NOT(a) for a in allowed): continue
                if name.endswith('from_object'):
                    st2 = assumed_I(I, [(BIN('Le', bits, INT(2**32 - 1, 'u64'), 'bool'), True)])
                    n8 = LEN(bytes_of(v(0)))
                    cond = strip_deref(e[1])
                    if I.decide(st2, cond) is False: continue
                    if cond is NOT(BIN('Le', n8, INT(2**32 - 1, 'usize'), 'bool')): continue      # implied: the bytes are the bits, padded
                ob(False, 'rejects', '%s fails when %s' % (b.path, show(e[1], 6)))
            for e in events:
                if e[0] == 'panic':
                    cond = strip_deref(e[1])
                    if name.endswith('from_object') and any(x is bits for x in walk(cond)) and any(x is bytes_of(v(0)) for x in walk(cond)): continue
                    ob(False, 'panic', '%s can panic (%s) when %s' % (b.path, e[2], show(e[1], 5)))
        guarded(c, name + ':analysis', go)
    c.assumptions.append('the debug assertion of ExternType::from_object (byte count = bits rounded up) is what G02 establishes')
    c.floor('entry point obligations', 20)

def assumed_I(I, facts):
    st = State()
    for f, v in facts: I.assume(st, f, v)
    return st

CHECKS = {'A01': A01}
