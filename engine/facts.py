"""Loads the JSON facts written by mirdump and links crates together."""
import json, os, sys
sys.setrecursionlimit(20000)

class Body:
    __slots__ = ('path','name','kind','pub','unsafe','exp','trait','self','generics','file','line','argc',
                 'locals','names','blocks','promoted','crate','_cfg','raw','end')
    def __repr__(self): return '<Body %s>' % self.path

class Facts:
    def __init__(self, paths):
        self.bodies = {}     # path -> Body
        self.adts = {}       # path -> dict
        self.impls = []      # (trait path, trait args, self ty, {name: path}, crate)
        self.statics = []
        self.consts = {}     # path -> (ty, val, span)
        self.unsafe = []
        self.crates = {}
        for p in paths:
            self._load(p)
        self.impl_index = {}
        for im in self.impls:
            if im['trait']:
                self.impl_index.setdefault(im['trait'][0], []).append(im)

    def _load(self, p):
        d = json.load(open(p))
        crate = d['crate']
        raw = d['types']
        tys = [None]*len(raw)
        def conv(i):
            if i is None: return None
            if tys[i] is not None: return tys[i]
            t = raw[i]
            k = t[0]
            if k in ('bool','char','str','never'): r = (k,)
            elif k in ('int','float','param','dyn','other'): r = (k, t[1])
            elif k == 'adt': r = ('adt', t[1], tuple(conv(x) for x in t[2]))
            elif k == 'array': r = ('array', conv(t[1]), t[2])
            elif k == 'slice': r = ('slice', conv(t[1]))
            elif k == 'ptr': r = ('ptr', t[1], conv(t[2]))
            elif k == 'ref': r = ('ref', t[1], conv(t[2]))
            elif k == 'tuple': r = ('tuple', tuple(conv(x) for x in t[1]))
            elif k == 'closure': r = ('closure', t[1], tuple(conv(x) for x in t[2]))
            else: r = ('other', json.dumps(t))
            tys[i] = r
            return r
        T = conv
        for a in d['adts']:
            for v in a['variants']:
                v['fields'] = [(f[0], T(f[1]), f[2]) for f in v['fields']]
            if a['path'] not in self.adts or a['local']:
                a['crate'] = crate
                self.adts[a['path']] = a
        for im in d['impls']:
            tr = im['trait']
            self.impls.append({'trait': (tr[0], tuple(T(x) for x in tr[1])) if tr else None,
                               'self': T(im['self']), 'unsafe': im['unsafe'],
                               'items': {k: v for k, v in im['items']}, 'crate': crate, 'span': im['span']})
        for s in d['statics']:
            s['ty'] = T(s['ty']); s['crate'] = crate
            self.statics.append(s)
        for c in d['consts']:
            self.consts[c['path']] = (T(c['ty']), c['val'], c['span'], c['name'])
        self.unsafe += [(crate, s) for s in d['unsafe']]
        self.crates[crate] = d
        # rewrite type indices inside bodies lazily: keep a per-crate table
        self.T = T
        for b in d['bodies']:
            o = Body()
            o.crate = crate
            o.path, o.name, o.kind, o.pub, o.unsafe, o.exp = b['path'], b['name'], b['kind'], b['pub'], b['unsafe'], b['exp']
            o.trait = (b['trait'][0], tuple(T(x) for x in b['trait'][1]) if b['trait'][1] else ()) if b['trait'] else None
            o.self = T(b['self'])
            o.generics = [g[0] for g in b['generics'] if g[1] == 'type']
            o.file, o.line, o.end = b['span'][0], b['span'][1], b['span'][2]
            self._body(o, b, T)
            o.promoted = []
            for pb in b['promoted']:
                q = Body()
                q.path, q.name, q.crate, q.kind = o.path + '::{promoted}', o.name, crate, 'promoted'
                q.trait = q.self = None; q.generics = o.generics; q.file, q.line, q.end = o.file, o.line, o.end
                self._body(q, pb, T); q.promoted = []
                o.promoted.append(q)
            self.bodies[o.path] = o
        d['bodies'] = len(d['bodies'])

    def _body(self, o, b, T):
        o.argc = b['argc']
        o.locals = [T(l[0]) for l in b['locals']]
        o.names = [l[1] for l in b['locals']]
        o._cfg = None
        def place(p):
            out = []
            for e in p[1:]:
                if e == '*': out.append('*')
                elif e[0] == 'f': out.append(('f', e[1], T(e[2])))
                else: out.append(tuple(e))
            return (p[0], tuple(out))
        def cval(v):
            k = v[0]
            if k == 'int': return ('int', int(v[1]), T(v[2]))
            if k == 'str': return ('str', v[1])
            if k == 'zst': return ('zst', T(v[1]))
            if k == 'refto': return ('refto', cval(v[1]))
            if k in ('array','tuple'): return (k, tuple(cval(x) for x in v[1]))
            if k == 'struct': return ('struct', T(v[1]), tuple(cval(x) for x in v[2]))
            return tuple(v)
        def fnref(f):
            f = dict(f)
            f['args'] = tuple(T(x) for x in f['args'])
            if 'rargs' in f: f['rargs'] = tuple(T(x) for x in f['rargs'])
            if 'self' in f: f['self'] = T(f['self'])
            return f
        def opnd(x):
            if isinstance(x, dict): return ('fn', fnref(x))
            if x[0] in ('cp','mv'): return (x[0], place(x[1]))
            if x[0] == 'c': return ('c', cval(x[1]), T(x[2]), x[3] if len(x) > 3 else None)
            if x[0] == 'promoted': return ('promoted', x[1], T(x[2]))
            return tuple(x)
        def rv(r):
            k = r[0]
            if k == 'use': return ('use', opnd(r[1]))
            if k == 'repeat': return ('repeat', opnd(r[1]), r[2])
            if k == 'ref': return ('ref', r[1], place(r[2]))
            if k == 'rawptr': return ('ref', 1, place(r[2]))
            if k == 'cast': return ('cast', r[1], opnd(r[2]), T(r[3]))
            if k == 'bin': return ('bin', r[1], opnd(r[2]), opnd(r[3]))
            if k == 'un': return ('un', r[1], opnd(r[2]))
            if k == 'discr': return ('discr', place(r[1]))
            if k == 'agg':
                kk = r[1]
                if kk[0] == 'adt': kk = ('adt', kk[1], kk[2], tuple(T(x) for x in kk[3]), kk[4])
                elif kk[0] == 'array': kk = ('array', T(kk[1]))
                else: kk = tuple(kk)
                return ('agg', kk, tuple(opnd(x) for x in r[2]))
            return tuple(r)
        o.blocks = []
        for bl in b['blocks']:
            st = []
            for s in bl['s']:
                if s[0] == '=': st.append(('=', place(s[1]), rv(s[2]), s[3]))
                elif s[0] == 'setd': st.append(('setd', place(s[1]), s[2], s[3]))
                else: st.append(tuple(s))
            t = bl['t']
            if t[0] == 'switch': t = ('switch', opnd(t[1]), tuple((int(v), bb) for v, bb in t[2]), t[3], T(t[4]), t[5])
            elif t[0] == 'call': t = ('call', opnd(t[1]), tuple(opnd(x) for x in t[2]), place(t[3]), t[4], t[5])
            elif t[0] == 'assert': t = ('assert', opnd(t[1]), t[2], t[3], tuple(opnd(x) for x in t[4]), t[5], t[6])
            elif t[0] == 'drop': t = ('drop', place(t[1]), t[2])
            else: t = tuple(t)
            o.blocks.append((st, t, bl['c']))

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[5]]
    if k == 'drop': return [t[2]]
    return []

def subst_ty(t, m):
    if not m or t is None: return t
    k = t[0]
    if k == 'param': return m.get(t[1], t)
    if k == 'adt': return ('adt', t[1], tuple(subst_ty(x, m) for x in t[2]))
    if k in ('array',): return (k, subst_ty(t[1], m), t[2])
    if k == 'slice': return (k, subst_ty(t[1], m))
    if k in ('ref', 'ptr'): return (k, t[1], subst_ty(t[2], m))
    if k == 'tuple': return (k, tuple(subst_ty(x, m) for x in t[1]))
    return t

def unify_ty(pat, t, m):
    """Match an impl type pattern against a concrete type, binding params in m."""
    if pat is None or t is None: return False
    if pat[0] == 'param':
        if pat[1] in m: return m[pat[1]] == t
        m[pat[1]] = t
        return True
    if pat[0] != t[0]: return False
    k = pat[0]
    if k == 'adt': return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify_ty(a, b, m) for a, b in zip(pat[2], t[2]))
    if k == 'slice': return unify_ty(pat[1], t[1], m)
    if k == 'array': return unify_ty(pat[1], t[1], m)
    if k in ('ref','ptr'): return unify_ty(pat[2], t[2], m)
    if k == 'tuple': return len(pat[1]) == len(t[1]) and all(unify_ty(a, b, m) for a, b in zip(pat[1], t[1]))
    return pat == t

def ty_str(t):
    if t is None: return '?'
    k = t[0]
    if k in ('int','float','param','dyn','other'): return t[1]
    if k == 'adt': return t[1].split('::')[-1] + ('<%s>' % ','.join(map(ty_str, t[2])) if t[2] else '')
    if k in ('ref','ptr'): return '&' + ty_str(t[2])
    if k in ('slice','array'): return '[%s]' % ty_str(t[1])
    if k == 'tuple': return '(%s)' % ','.join(map(ty_str, t[1]))
    return k
