"""G01-G04: generated encoders, decoders, size functions and packing contexts against each other."""
from engine import build
from engine.genrun import *
from engine.scalar import *

def load():
    F = build.load('gen'); return F, Gen(F)

def short(g): return g.name
def guarded(c, key, f):
    try: return f()
    except (Mismatch, AnalysisError) as e:
        c.violation(key, str(e)); return None

def mirror_type(c, G, g, packed):
    tag = '%s:%s' % (short(g), 'packed' if packed else 'plain')
    def run():
        r = G.mirror(g, packed); w = G.writer(g, packed)
        bad = list(dict.fromkeys(w.viol + r.viol))
        for k, m in bad: c.violation('%s:%s' % (tag, k), m)
        if r.ok:
            for f, m in finals(G, g, r, w):
                c.violation('%s:field:%s' % (tag, f), '%s: after decoding, field %s is %s instead of the encoded value' % (r.path, f, m))
        c.count('wire operations of encoders', sum(1 for _ in stream_ops(w.stream)))
        c.count('decoder operations matched', r.nops)
        for p in r.paramobl:
            c.count('parameter arguments equal to what the encoder asserts' if p[3] else 'parameter arguments assumed to be set by the user')
        c.ok('decoders', 1, '%s %s: %d operations' % (r.path, 'packed' if packed else '', r.nops))
    guarded(c, tag + ':mismatch', run)

def size_type(c, G, g, packed):
    tag = '%s:%s' % (short(g), 'packed' if packed else 'plain')
    def run():
        w, dec, st, val, wr, s = size_run(G, g, packed)
        for k, m in w.viol: c.violation('%s:%s' % (tag, k), m)
        d = size_equal(dec, st, wr, val, [20000])
        if d: c.violation('%s:size' % tag, '%s: %s' % (g.fn('zserio_bitsize_packed' if packed else 'zserio_bitsize').path, d))
        else: c.ok('size functions', 1, '%s: %s' % (g.name, show(val, 5)[:200]))
    guarded(c, tag + ':sizemismatch', run)

def G01(c):
    c.rule('for every generated type, the decoder interpreted against the encoder\'s wire operations consumes exactly those operations, in order and under the same conditions, and reconstructs every encoded field')
    c.assumptions += ['parameters of the object are the ones it was encoded with', 'array lengths fit the length prefix', 'runtime codecs behave as W01, W04, R01 establish']
    F, G = load()
    for t, g in G.types.items():
        if g.fn('zserio_read') is not None: mirror_type(c, G, g, False)
    c.floor('decoders', 60)
def G02(c):
    c.rule('for every generated type, the term returned by zserio_bitsize equals the sum of the sizes of the operations zserio_write performs, position dependent parts included')
    c.assumptions += ['bit positions do not overflow u64']
    F, G = load()
    for t, g in G.types.items(): size_type(c, G, g, False)
    c.floor('size functions', 60)
def G03(c):
    c.rule('for every generated type, zserio_read_packed interpreted against the operations of zserio_write_packed consumes exactly those; zserio_bitsize_packed equals their total size')
    c.assumptions += ['context values of decoder and encoder evolve identically (R02)', 'parameters of the object are the ones it was encoded with']
    F, G = load()
    for t, g in G.types.items():
        mirror_type(c, G, g, True); size_type(c, G, g, True)
    c.floor('decoders', 60)
def G04(c):
    c.rule('the context tree zserio_create_packing_context builds contains every node packed code uses, with the shape of the packed type; zserio_init_packing_context feeds every context exactly the values zserio_write_packed later codes with it, in the same order and under the same conditions')
    F, G = load()
    for t, g in G.types.items():
        def run():
            iw = init_run(G, g); w = G.writer(g, True)
            for k, m in dict.fromkeys(iw.viol + w.viol): c.violation('%s:%s' % (short(g), k), m)
            ps = sorted(set(ctx_paths(iw.stream)) | set(ctx_paths(w.stream)))
            for p in ps:
                d = stream_equal(iw.rd, State(), ctx_filter(iw.stream, p), ctx_filter(w.stream, p), [5000])
                c.check(d is None, '%s:init:%s' % (short(g), p), '%s: context %s is initialised with %s (initialisation against encoding)' % (g.name, p, d), 'contexts', '%s %s' % (g.name, p))
            c.ok('types')
        guarded(c, short(g) + ':ctx', run)
    c.floor('types', 60); c.floor('contexts', 60)
CHECKS = {'G01': G01, 'G02': G02, 'G03': G03, 'G04': G04}
