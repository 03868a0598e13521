"""H03: no encode or decode error is swallowed."""
from engine import build
from engine.mirflow import errflow, callee, restype
from engine.facts import ty_str
from checks.runtime import *

ERR = 'zserio::error::ZserioError'

def prodbodies(F, crates):
    for b in F.bodies.values():
        if b.crate in crates and not b.exp: yield b

def H03(c):
    c.rule('every call in the runtime and in the generated code whose type is a Result (or an Option of one): on every path its value is returned, passed through `?` or a combinator that keeps failures, or matched with a failure arm all of whose paths return a failure or abort; '
           'it is never dropped, overwritten, converted to an Option or default, or handed to code that does not return it')
    c.rule('an error is only replaced by the error kind that stands for it (I/O -> IoError, UTF-8 -> InvalidUtf8, integer conversion -> DataDoesNotFit/DataError); a ZserioError is never replaced; running out of input is always Eof')
    c.rule('the From conversions into ZserioError map each source error to its own kind')
    F = build.load('all')
    names = [v['name'] for v in F.adts[ERR]['variants']]
    def kinds(e, v):
        s = ty_str(e); n = names[v] if isinstance(v, int) and v < len(names) else '?'
        if s == 'ZserioError': return 'another error (%s)' % n
        table = {'BitReaderError': (), 'Error': ('IoError',), 'FromUtf8Error': ('InvalidUtf8',), 'Utf8Error': ('InvalidUtf8', 'DataError'), 'TryFromIntError': ('DataDoesNotFit', 'DataError')}
        if s in table and n not in table[s] and n != '?': return n
        if n == 'Eof': return n
        return None
    bodies = list(prodbodies(F, ('zserio', 'corpus')))
    seen = {}
    n = errflow(F, bodies, lambda k, m: seen.setdefault(k, m), kinds)
    for k, m in sorted(seen.items()): c.violation('flow:' + k, m)
    c.ok('fallible calls', n, 'each followed on all paths of its function')
    c.count('functions', len(bodies))
    c.floor('fallible calls', 4000)
    froms(c, F, names)
    eof(c, F, names)
    sinks(c, F)

def froms(c, F, names):
    want = {'FromUtf8Error': 'InvalidUtf8', 'Error': 'IoError'}
    found = set()
    for im in F.impl_index.get('core::convert::From', []):
        if im['self'] != ('adt', ERR, ()): continue
        src = im['trait'][1][-1]; nm = ty_str(src)
        b = F.bodies.get(im['items'].get('from'))
        if b is None: continue
        found.add(nm)
        if nm == 'BitReaderError':
            ad = F.adts.get('bitreader::BitReaderError')
            vs = [v['name'] for v in ad['variants']] if ad else ['NotEnoughData', 'TooManyBitsForType']
            for i, vn in enumerate(vs):
                r = runfrom(F, b, mk('adt', 'bitreader::BitReaderError', i, *[SYM('e%d' % j, 'u64') for j in range(3)]))
                exp = {'NotEnoughData': 'Eof', 'TooManyBitsForType': 'DataDoesNotFit'}.get(vn)
                c.check(exp is not None and r.op == 'adt' and names[r.a[1]] == exp, 'from:%s' % vn, '%s turns BitReaderError::%s into %s, not %s' % (b.path, vn, show(r, 4), exp), 'error conversions', 'BitReaderError::%s -> %s' % (vn, exp))
        elif nm in want:
            r = runfrom(F, b, SYM('e'))
            c.check(r.op == 'adt' and names[r.a[1]] == want[nm] and r.a[2] is SYM('e'), 'from:%s' % nm, '%s turns a %s into %s' % (b.path, nm, show(r, 4)), 'error conversions', '%s -> %s' % (nm, want[nm]))
        else:
            r = runfrom(F, b, SYM('e'))
            c.check(r.op == 'adt' and names[r.a[1]] not in ('Eof', 'InvalidUtf8', 'IoError'), 'from:%s' % nm, '%s turns a %s into %s' % (b.path, nm, show(r, 4)), 'error conversions')
    for w in ('BitReaderError', 'Error', 'FromUtf8Error'):
        c.check(w in found, 'from:missing:' + w, 'no conversion of %s into ZserioError' % w, 'error conversions')

def runfrom(F, b, arg):
    I = Interp(F, policy=lambda c: None)
    st = State(); fr = I.new_frame(b, {}, 0); st.env[('L', fr.fid, 1)] = arg
    outs = I.run(fr, 0, {}, st)
    s = outs.get('ret')
    if s is None: raise AnalysisError('%s never returns' % b.path)
    return I.deep(s, s.env.get(('L', fr.fid, 0), UNIT()))

def eof(c, F, names):
    """a failure decided by the bits left in the input is Eof"""
    for b in prodbodies(F, ('zserio',)):
        if not any(t[0] == 'call' and callee(t)[1] == 'remaining' for st, t, cl in b.blocks): continue
        def go():
            I = Interp(F, policy=lambda k: mk('app', 'remaining', ty='u64') if k.path == RD + 'remaining' else None)
            st = State(); fr = I.new_frame(b, {}, 0)
            for i in range(b.argc): st.env[('L', fr.fid, i + 1)] = SYM('a%d' % i, tystr(b.locals[i + 1]) or None)
            outs = I.run(fr, 0, {}, st)
            s = outs.get('ret')
            if s is None: raise AnalysisError('%s never returns' % b.path)
            for e in leaves(s.eff):
                if e[0] != 'fail': continue
                if any(x.op == 'app' and x.a[0] == 'remaining' for x in walk(e[1])):
                    kind = e[3]
                    nm = names[int(kind.split('#')[1])] if kind and kind.startswith('ZserioError#') else kind
                    c.check(nm == 'Eof', 'eof:' + b.path, '%s reports %s when the input ends early' % (b.path, nm), 'input length checks', '%s: too little input -> Eof' % b.path)
        guarded(c, 'eof:%s' % b.path, go)

def sinks(c, F):
    """primitive writes and reads return a Result (a codec that cannot report a failure would have to swallow it)"""
    for b in prodbodies(F, ('zserio', 'corpus')):
        calls = [callee(t) for st, t, cl in b.blocks if t[0] == 'call' and not cl]
        prim = [p for p, n in calls if p and (p.startswith(WR + 'write') or p.startswith(RD + 'read') or p.startswith(RD + 'skip') or p.startswith(WR + 'skip') or p.startswith(WR + 'close'))]
        if not prim or b.kind == 'closure': continue
        c.check(restype(b.locals[0]) is not None, 'signature:' + b.path, '%s performs %s but cannot report a failure' % (b.path, prim[0]), 'codec signatures')

CHECKS = {'H03': H03}
