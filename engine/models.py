"""Abstract transformers for the standard library functions the analysed code uses."""
import re
from .terms import *
from . import terms as T

MODELS = {}
MODELS_RX = []
def model(*paths):
    def d(f):
        for p in paths: MODELS[p] = f
        return f
    return d
def model_rx(*rx):
    def d(f):
        for p in rx: MODELS_RX.append((re.compile(p), f))
        return f
    return d

Z = lambda v: INT(v, 'usize')
def is_ok(v): return BIN('Eq', DISCR(v, RES_ADT), INT(0, 'i128'), 'bool')
def is_some(v): return BIN('Eq', DISCR(v, OPT_ADT), INT(1, 'i128'), 'bool')
RES_ADT = {'variants': [{'discr': '0'}, {'discr': '1'}]}
OPT_ADT = RES_ADT
def okv(v): return PROJ(v, ('f', 0, 0))
def errv(v): return PROJ(v, ('f', 1, 0))
def somev(v): return PROJ(v, ('f', 1, 0))

# ------------------------------------------------------------------ Result / Option
@model('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch')
def _(c):
    v = c.val(0); k = is_ok(v)
    return ITE(k, ADT(CF, 0, (okv(v),)), ADT(CF, 1, (ERR(errv(v)),)))
@model('<core::option::Option<T> as core::ops::try_trait::Try>::branch')
def _(c):
    v = c.val(0); k = is_some(v)
    return ITE(k, ADT(CF, 0, (somev(v),)), ADT(CF, 1, (NONE(),)))
@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual')
def _(c): return ERR(mk('app', 'from', errv(c.val(0))))
@model('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual')
def _(c): return NONE()

@model('core::result::Result::<T, E>::unwrap', 'core::result::Result::<T, E>::expect')
def _(c):
    v = c.val(0); k = is_ok(v)
    if c.panic(NOT(k), 'unwrap-err', (v,)): return 'diverge'
    return okv(v)
@model('core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect')
def _(c):
    v = c.val(0); k = is_some(v)
    if c.panic(NOT(k), 'unwrap-none', (v,)): return 'diverge'
    return somev(v)
@model('core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked')
def _(c): return somev(c.val(0)) if 'option' in c.path else okv(c.val(0))
@model('core::option::Option::<T>::unwrap_or')
def _(c): v = c.val(0); return ITE(is_some(v), somev(v), c.args[1])
@model('core::result::Result::<T, E>::unwrap_or')
def _(c): v = c.val(0); return ITE(is_ok(v), okv(v), c.args[1])
@model('core::option::Option::<T>::is_some')
def _(c): return is_some(c.load(0))
@model('core::option::Option::<T>::is_none')
def _(c): return NOT(is_some(c.load(0)))
@model('core::result::Result::<T, E>::is_ok')
def _(c): return is_ok(c.load(0))
@model('core::result::Result::<T, E>::is_err')
def _(c): return NOT(is_ok(c.load(0)))
def refinto(c, r, k):
    """reference to a sub-place of what reference r points at"""
    if r.op == 'ite': return ITE(r.a[0], refinto(c, r.a[1], k), refinto(c, r.a[2], k))
    if r.op == 'ref': return mk('ref', r.a[0], r.a[1] + (k,))
    if r.op == 'deref_of':
        return mk('deref_of', PROJ(r.a[0], k))
    return mk('ref', ('P', r), (k,))
@model('core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut')
def _(c):
    v = c.load(0)
    return ITE(is_some(v), SOME(refinto(c, c.val(0), ('f', 1, 0))), NONE())
@model('core::result::Result::<T, E>::as_ref', 'core::result::Result::<T, E>::as_mut')
def _(c):
    v = c.load(0)
    return ITE(is_ok(v), OK(refinto(c, c.val(0), ('f', 0, 0))), ERR(refinto(c, c.val(0), ('f', 1, 0))))
@model('core::option::Option::<&T>::copied', 'core::option::Option::<&T>::cloned')
def _(c):
    v = c.val(0); k = is_some(v)
    if k.op == 'int' and not k.a[0]: return NONE()
    return ITE(k, SOME(c.I.deref_val(c.st, somev(v))), NONE())
@model('core::option::Option::<T>::take')
def _(c):
    v = c.load(0); c.store(0, NONE()); return v
@model('core::option::Option::<T>::replace')
def _(c):
    v = c.load(0); c.store(0, SOME(c.args[1])); return v
@model('core::option::Option::<T>::insert')
def _(c):
    c.store(0, SOME(c.args[1])); return refinto(c, c.val(0), ('f', 1, 0))
@model('core::option::Option::<T>::ok_or')
def _(c): v = c.val(0); return ITE(is_some(v), OK(somev(v)), ERR(c.args[1]))
@model('core::option::Option::<T>::ok_or_else')
def _(c): v = c.val(0); return ITE(is_some(v), OK(somev(v)), ERR(mk('app', 'lazy_err')))
@model('core::result::Result::<T, E>::ok')
def _(c): v = c.val(0); return ITE(is_ok(v), SOME(okv(v)), NONE())
@model('core::result::Result::<T, E>::err')
def _(c): v = c.val(0); return ITE(is_ok(v), NONE(), SOME(errv(v)))
@model('core::result::Result::<T, E>::or')
def _(c): v = c.val(0); return ITE(is_ok(v), v, c.args[1])
@model('core::option::Option::<T>::or')
def _(c): v = c.val(0); return ITE(is_some(v), v, c.args[1])

def under(c, k, f):
    """evaluate f() assuming k; effects are gated"""
    st = c.st
    d = c.I.decide(st, k)
    if d is False: return UNDEF()
    if d: return f()
    e0, pc0 = st.eff, dict(st.pc)
    env0 = dict(st.env)
    st.eff = []
    c.I.assume(st, k, True)
    r = f()
    eff1 = st.eff
    st.eff = e0
    st.pc = pc0
    if r is None or r == 'diverge':
        st.env = env0
        st.eff.append(('if', k, eff1, [], c.site())); 
        return UNDEF()
    env = {}
    for kk, v in st.env.items():
        w = env0.get(kk)
        env[kk] = v if w is None or w is v else ITE(k, v, w)
    st.env = env
    if eff1: st.eff.append(('if', k, eff1, [], c.site()))
    return r
@model('core::result::Result::<T, E>::map')
def _(c):
    v = c.val(0); k = is_ok(v)
    if v.op == 'res':
        x = c.callv(c.args[1], [okv(v)])
        return mk('res', v.a[0], x if x is not None else UNDEF())
    x = under(c, k, lambda: c.callv(c.args[1], [okv(v)]))
    return ITE(k, OK(x), ERR(errv(v)))
@model('core::option::Option::<T>::map')
def _(c):
    v = c.val(0); k = is_some(v)
    x = under(c, k, lambda: c.callv(c.args[1], [somev(v)]))
    return ITE(k, SOME(x), NONE())
@model('core::result::Result::<T, E>::and_then')
def _(c):
    v = c.val(0); k = is_ok(v)
    x = under(c, k, lambda: c.callv(c.args[1], [okv(v)]))
    if k.op == 'int': return x if k.a[0] else v
    return ITE(k, x, ERR(errv(v)))
@model('core::option::Option::<T>::and_then')
def _(c):
    v = c.val(0); k = is_some(v)
    x = under(c, k, lambda: c.callv(c.args[1], [somev(v)]))
    return ITE(k, x, NONE())
@model('core::result::Result::<T, E>::map_err')
def _(c):
    v = c.val(0)
    if v.op == 'res': return v
    k = is_ok(v)
    return ITE(k, OK(okv(v)), ERR(mk('app', 'map_err', errv(v))))
@model('core::result::Result::<T, E>::or_else')
def _(c):
    v = c.val(0); k = is_ok(v)
    x = under(c, NOT(k), lambda: c.callv(c.args[1], [errv(v)]))
    return ITE(k, OK(okv(v)), x)
@model('core::option::Option::<T>::unwrap_or_else')
def _(c):
    v = c.val(0); k = is_some(v)
    return ITE(k, somev(v), under(c, NOT(k), lambda: c.callv(c.args[1], [])))
@model('core::result::Result::<T, E>::unwrap_or_else')
def _(c):
    v = c.val(0); k = is_ok(v)
    return ITE(k, okv(v), under(c, NOT(k), lambda: c.callv(c.args[1], [errv(v)])))
@model('core::option::Option::<T>::is_some_and')
def _(c):
    v = c.val(0); k = is_some(v)
    return AND(k, under(c, k, lambda: c.callv(c.args[1], [somev(v)])))
@model('core::option::Option::<T>::filter')
def _(c): return NotImplemented

# ------------------------------------------------------------------ conversions
def scalar_conv(c):
    f = tystr(c.atys[0]); t = tystr(c.dty)
    if f and t: return CAST(c.val(0), f, t)
    return None
@model('<T as core::convert::Into<U>>::into', 'core::convert::Into::into', 'core::convert::From::from')
def _(c):
    r = scalar_conv(c)
    if r is not None: return r
    if c.atys[0] is not None and c.atys[0] == c.dty: return c.args[0]
    # user From impls: dispatch
    src, dst = c.atys[0], c.dty
    if dst is not None:
        for im in c.I.F.impl_index.get('core::convert::From', ()):
            m = {}
            if T_unify(im['self'], dst, m) and T_unify(im['trait'][1][1], src, m) and 'from' in im['items']:
                b = c.I.F.bodies.get(im['items']['from'])
                if b is not None: 
                    r = c.I.inline(c.fr, c.st, b, tuple(m.get(g, ('param', g)) for g in b.generics), list(c.args), c.line)
                    return 'diverge' if r is None else r
        if dst[0] == 'adt' and dst[1] == 'alloc::string::String': return str_of(c, 0)
        if dst[0] == 'adt' and dst[1] == OPTION: return SOME(c.args[0])
    return NotImplemented
from .facts import unify_ty as T_unify
@model('<core::option::Option<T> as core::convert::From<T>>::from')
def _(c): return SOME(c.args[0])
@model_rx(r'^core::convert::num::.*::from$', r'^<.* as core::convert::From<.*>>::from$')
def _(c):
    r = scalar_conv(c)
    return r if r is not None else NotImplemented
@model('<T as core::convert::From<T>>::from')
def _(c): return c.args[0]
@model('<T as core::convert::TryInto<U>>::try_into', 'core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(c):
    f = tystr(c.atys[0])
    d = c.dty
    t = tystr(d[2][0]) if d and d[0] == 'adt' and d[1] == RESULT else None
    if f in WIDTH and t in WIDTH: return try_cast(c.val(0), f, t)
    if d and d[0] == 'adt' and d[1] == RESULT and d[2][0][0] == 'array':
        x = c.val(0)
        if c.atys[0] is not None and c.atys[0][0] == 'ref' or x.op == 'ref': x = c.load(0)
        try: k = INT(int(d[2][0][2]), 'usize')
        except (TypeError, ValueError): k = mk('app', 'arraylen', ty='usize')
        return ITE(BIN('Eq', LEN(x), k, 'bool'), OK(x), ERR(mk('app', 'slice_err')))
    if d and d[0] == 'adt' and d[1] == RESULT:
        for im in c.I.F.impl_index.get('core::convert::TryFrom', ()):
            m = {}
            if T_unify(im['self'], d[2][0], m) and T_unify(im['trait'][1][1], c.atys[0], m) and 'try_from' in im['items']:
                b = c.I.F.bodies.get(im['items']['try_from'])
                if b is not None:
                    r = c.I.inline(c.fr, c.st, b, (), list(c.args), c.line)
                    return 'diverge' if r is None else r
    return NotImplemented
@model_rx(r'^core::convert::num::.*::try_from$')
def _(c):
    f = tystr(c.atys[0]); d = c.dty
    t = tystr(d[2][0]) if d and d[0] == 'adt' and d[1] == RESULT else None
    if f in WIDTH and t in WIDTH: return try_cast(c.val(0), f, t)
    return NotImplemented
def try_cast(x, f, t):
    lo, hi = rng(t); lf, hf = rng(f)
    ok = BOOL(True)
    if hi < hf: ok = AND(ok, BIN('Le', x, INT(hi, f), 'bool'))
    if lo > lf: ok = AND(ok, BIN('Le', INT(lo, f), x, 'bool'))
    return ITE(ok, OK(CAST(x, f, t)), ERR(mk('app', 'TryFromIntError')))
@model_rx(r'^core::num::<impl .*>::(is_positive|is_negative)$')
def _(c):
    x = c.val(0); t = x.ty
    if t not in WIDTH: return NotImplemented
    z = INT(0, t)
    return BIN('Lt', z, x, 'bool') if c.name == 'is_positive' else BIN('Lt', x, z, 'bool')

# ------------------------------------------------------------------ default / clone / eq / deref
def default_of(c, ty):
    if ty is None: return None
    t = tystr(ty)
    if t == 'bool': return BOOL(False)
    if t in WIDTH: return INT(0, t)
    if t in FLOATS: return mk('int', 0, t, ty=t)
    if ty[0] == 'adt':
        if ty[1] == 'alloc::string::String': return mk('str', '')
        if ty[1] == 'alloc::vec::Vec': return mk('vecnew')
        if ty[1] == OPTION: return NONE()
        for im in c.I.F.impl_index.get('core::default::Default', ()):
            m = {}
            if T_unify(im['self'], ty, m) and 'default' in im['items']:
                b = c.I.F.bodies.get(im['items']['default'])
                if b is not None:
                    return c.I.inline(c.fr, c.st, b, tuple(m.get(g, ('param', g)) for g in b.generics), [], c.line)
    if ty[0] == 'tuple':
        xs = [default_of(c, x) for x in ty[1]]
        if None not in xs: return mk('tuple', *xs)
    return None
@model_rx(r'^<.* as core::default::Default>::default$', r'^core::default::Default::default$')
def _(c):
    if c.path in c.I.F.bodies: return NotImplemented
    d = default_of(c, c.dty)
    if d is not None: return d
    return mk('app', 'default', mk('konst', str(c.dty)))
@model_rx(r'^<.* as core::clone::Clone>::clone$', r'^core::clone::impls::.*::clone$', r'^core::clone::Clone::clone$', r'^alloc::borrow::ToOwned::to_owned$', r'^<.* as alloc::borrow::ToOwned>::to_owned$', r'^alloc::slice::<impl \[T\]>::to_vec$')
def _(c):
    return c.load(0)       # clones are value copies
@model_rx(r'^.*::clone_from$')
def _(c):
    c.store(0, c.load(1)); return UNIT()
@model_rx(r'^core::mem::(replace)$')
def _(c):
    v = c.load(0); c.store(0, c.args[1]); return v
@model('core::mem::take')
def _(c):
    v = c.load(0); d = default_of(c, c.dty)
    if d is None: return NotImplemented
    c.store(0, d); return v
@model('core::mem::swap')
def _(c):
    a = c.load(0); b = c.load(1); c.store(0, b); c.store(1, a); return UNIT()
@model('core::mem::drop', 'core::mem::forget')
def _(c): return UNIT()
def eq_model(c):
    if c.path in c.I.F.bodies: return NotImplemented
    if c.name == 'ne' and len(c.targs) == 2 and c.targs[0][0] == 'adt':
        for im in c.I.F.impl_index.get('core::cmp::PartialEq', ()):
            if im['trait'][1] == tuple(c.targs) and 'eq' in im['items'] and 'ne' not in im['items']:
                b = c.I.F.bodies.get(im['items']['eq'])
                if b is not None:
                    r = c.I.inline(c.fr, c.st, b, (), c.args, c.line)
                    return 'diverge' if r is None else NOT(r)
    a = strip(c.load(0), c); b = strip(c.load(1), c)
    r = val_eq(c, a, b)
    return NOT(r) if c.name == 'ne' else r
def strip(v, c):
    for _ in range(4):
        if v.op in ('ref',): v = c.I.deref_val(c.st, v)
        elif v.op == 'deref_of': v = v.a[0]
        else: break
    return v
def val_eq(c, a, b):
    if a.ty in WIDTH or b.ty in WIDTH: return BIN('Eq', a, b, 'bool')
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and a.a[1] != b.a[1]: return BOOL(False)
    if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == 2: return BOOL(True)
    a = c.deep(a); b = c.deep(b)
    if a is b: return BOOL(True)
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk('app', 'eq', x, y, ty='bool')
MODELS_RX.append((re.compile(r'^(core|alloc)::.*(PartialEq|partial_eq).*::(eq|ne)$'), eq_model))
MODELS_RX.append((re.compile(r'^<.* as core::cmp::PartialEq(<.*>)?>::(eq|ne)$'), eq_model))
@model_rx(r'^core::cmp::impls::.*::(min|max)$', r'^core::cmp::Ord::(min|max)$', r'^core::cmp::(min|max)$', r'^<.* as core::cmp::Ord>::(min|max)$')
def _(c):
    a, b = c.val(0), c.val(1)
    if c.name == 'min': return ITE(BIN('Le', a, b, 'bool'), a, b)
    return ITE(BIN('Le', a, b, 'bool'), b, a)
@model_rx(r'^core::cmp::impls::.*::(lt|le|gt|ge)$', r'^core::cmp::PartialOrd::(lt|le|gt|ge)$')
def _(c):
    a, b = c.load(0), c.load(1)
    if a.op == 'ref': a, b = c.I.deref_val(c.st, a), c.I.deref_val(c.st, b)
    return BIN({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name], a, b, 'bool')
def same(c): return c.args[0]
for p in ('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', 'alloc::vec::Vec::<T, A>::as_slice',
          'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::hint::must_use', 'core::convert::identity', 'core::hint::black_box',
          '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
          'alloc::slice::<impl [T]>::into_vec', 'alloc::string::String::into_boxed_str', 'core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes',
          '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut',
          'alloc::boxed::box_assume_init_into_vec_unsafe','core::borrow::Borrow::borrow','core::convert::AsRef::as_ref'):
    MODELS[p] = same
@model('alloc::string::String::into_bytes')
def _(c): return c.args[0]
@model_rx(r'^core::clone::impls::<impl core::clone::Clone for &T>::clone$')
def _(c): return c.load(0)
@model_rx(r'^alloc::string::.*::to_string$', r'^<.* as alloc::string::ToString>::to_string$', r'^alloc::str::<impl .*>::to_owned$', r'^<alloc::string::String as core::convert::From<.*>>::from$')
def _(c): return str_of(c, 0)
def str_of(c, i):
    v = c.I.deref_val(c.st, c.args[i]) if c.args[i].op != 'str' else c.args[i]
    if tystr(c.atys[i]) or v.ty in WIDTH: return mk('app', 'to_string', v)
    return v

# ------------------------------------------------------------------ Box
@model('alloc::boxed::Box::<T>::new')
def _(c): return mk('ref', c.I.heap(c.st, c.args[0]), ())
@model('alloc::boxed::Box::<T>::pin')
def _(c): return NotImplemented

# ------------------------------------------------------------------ Vec / slice
@model('alloc::vec::Vec::<T>::new')
def _(c): return mk('vecnew')
@model('alloc::vec::Vec::<T>::with_capacity')
def _(c):
    c.op('reserve', mk('vecnew'), c.args[0])
    return mk('vecnew')
@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact')
def _(c):
    c.op('reserve', c.load(0), c.args[1])
    return UNIT()
@model('alloc::vec::Vec::<T, A>::shrink_to_fit')
def _(c): return UNIT()
@model('alloc::vec::Vec::<T, A>::push')
def _(c):
    if c.I.growops: c.op('grow')
    c.store(0, PUSH(c.load(0), c.deepbox(c.args[1]) if hasattr(c, 'deepbox') else c.args[1])); return UNIT()
@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def _(c): return LEN(c.load(0))
@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty')
def _(c): return BIN('Eq', LEN(c.load(0)), Z(0), 'bool')
@model('alloc::vec::Vec::<T, A>::clear')
def _(c): c.store(0, mk('vecnew')); return UNIT()
@model('alloc::vec::from_elem')
def _(c):
    c.op('reserve', mk('vecnew'), c.args[1])
    return mk('filled', c.args[0], c.args[1])
@model('alloc::vec::Vec::<T, A>::resize')
def _(c):
    c.op('reserve', c.load(0), c.args[1])
    v = c.load(0)
    if v.op == 'vecnew': c.store(0, mk('filled', c.args[2], c.args[1]))
    else: c.store(0, mk('app', 'resize', v, c.args[1], c.args[2]))
    return UNIT()
@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def _(c):
    v = c.load(0); w = c.I.deref_val(c.st, c.args[1])
    c.store(0, w if v.op == 'vecnew' else mk('app', 'concat', v, w)); return UNIT()
def index(c, mutable):
    v = c.load(0); i = c.val(1)
    if i.ty in WIDTH or isint(i):
        n = LEN(v)
        if c.panic(BIN('Le', n, i, 'bool'), 'bounds', (n, i)): return 'diverge'
        return refinto(c, c.val(0), ('i', i))
    # ranges
    n = LEN(v)
    if i.op == 'adt':
        p = i.a[0].split('::')[-1]
        f = i.a[2:]
        lo, hi = None, None
        if p == 'RangeTo': lo, hi = Z(0), f[0]
        elif p == 'RangeFrom': lo, hi = f[0], n
        elif p == 'Range': lo, hi = f[0], f[1]
        elif p == 'RangeFull': return c.val(0)
        elif p == 'RangeToInclusive': lo, hi = Z(0), BIN('Add', f[0], Z(1), 'usize')
        if lo is not None:
            if c.panic(BIN('Lt', n, hi, 'bool'), 'slice', (n, hi)): return 'diverge'
            if c.panic(BIN('Lt', hi, lo, 'bool'), 'slice-order', (lo, hi)): return 'diverge'
            r = c.I.heap(c.st, subslice(v, lo, hi))
            return mk('ref', r, ())
    return NotImplemented
def subslice(v, lo, hi):
    if isint(lo) and lo.a[0] == 0 and hi is LEN(v): return v
    return mk('subslice', v, lo, hi)
MODELS['<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index'] = lambda c: index(c, False)
MODELS['<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut'] = lambda c: index(c, True)
MODELS['core::slice::index::<impl core::ops::index::Index<I> for [T]>::index'] = lambda c: index(c, False)
MODELS['core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut'] = lambda c: index(c, True)
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(c):
    v = c.load(0); i = c.val(1)
    if i.ty in WIDTH or isint(i):
        return ITE(BIN('Lt', i, LEN(v), 'bool'), SOME(refinto(c, c.val(0), ('i', i))), NONE())
    n = LEN(v)
    if i.op == 'adt':
        p = i.a[0].split('::')[-1]; f = i.a[2:]
        lo = hi = None
        if p == 'RangeTo': lo, hi = Z(0), f[0]
        elif p == 'RangeFrom': lo, hi = f[0], n
        elif p == 'Range': lo, hi = f[0], f[1]
        if lo is not None:
            ok = AND(BIN('Le', hi, n, 'bool'), BIN('Le', lo, hi, 'bool'))
            return ITE(ok, SOME(mk('ref', c.I.heap(c.st, subslice(v, lo, hi)), ())), NONE())
    return NotImplemented
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def _(c):
    v = c.load(0); n = LEN(v)
    i = Z(0) if c.name == 'first' else BIN('Sub', n, Z(1), 'usize')
    return ITE(NOT(BIN('Eq', n, Z(0), 'bool')), SOME(refinto(c, c.val(0), ('i', i))), NONE())
@model('core::slice::<impl [T]>::split_last')
def _(c):
    v = c.load(0); n = LEN(v)
    i = BIN('Sub', n, Z(1), 'usize')
    r = c.I.heap(c.st, subslice(v, Z(0), i))
    return ITE(NOT(BIN('Eq', n, Z(0), 'bool')), SOME(mk('tuple', refinto(c, c.val(0), ('i', i)), mk('ref', r, ()))), NONE())
@model('alloc::vec::Vec::<T, A>::pop')
def _(c):
    v = c.load(0)
    if v.op == 'push':
        c.store(0, v.a[0]); return SOME(v.a[1])
    return NotImplemented
@model('alloc::string::String::from_utf8')
def _(c): 
    r = c.I.fresh_res('from_utf8', mk('app', 'utf8', c.args[0]))
    c.op('from_utf8', c.deep(c.args[0]), res=r)
    return r

# ------------------------------------------------------------------ iterators
def iter_adt(kind, *f): return mk('adt', '$' + kind, 0, *f)
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', '<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&\'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter',
       'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a mut [T]>::into_iter',
       'core::array::<impl core::iter::traits::collect::IntoIterator for &\'a [T; N]>::into_iter')
def _(c): return iter_adt('SliceIter', c.val(0), Z(0))
@model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def _(c): return iter_adt('IntoIter', c.val(0), Z(0))
@model('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def _(c): return iter_adt('IntoIter', c.val(0), Z(0))
@model('<I as core::iter::traits::collect::IntoIterator>::into_iter', 'core::iter::traits::iterator::Iterator::by_ref')
def _(c): return c.args[0]
@model('core::iter::traits::iterator::Iterator::enumerate')
def _(c): return iter_adt('Enumerate', c.val(0), Z(0))
@model('core::iter::traits::iterator::Iterator::rev')
def _(c):
    v = c.val(0)
    return iter_adt('Rev', v)
@model('core::iter::traits::iterator::Iterator::take')
def _(c): return iter_adt('Take', c.val(0), c.args[1])
@model('core::iter::traits::iterator::Iterator::skip')
def _(c):
    v = c.val(0)
    if v.op == 'adt' and v.a[0] == '$SliceIter': return iter_adt('SliceIter', v.a[2], BIN('Add', v.a[3], c.args[1], 'usize'))
    return iter_adt('Skip', v, c.args[1])
@model('core::iter::traits::iterator::Iterator::zip')
def _(c):
    b = c.val(1)
    if b.op == 'ref' : b = iter_adt('SliceIter', b, Z(0))
    elif b.op in ('vecnew','push','arr','build'): b = iter_adt('IntoIter', b, Z(0))
    return iter_adt('Zip', c.val(0), b)
@model('core::iter::traits::iterator::Iterator::map')
def _(c): return iter_adt('Map', c.val(0), c.args[1])
@model('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied')
def _(c): return iter_adt('Copied', c.val(0))
@model('core::iter::traits::iterator::Iterator::step_by')
def _(c): return NotImplemented
def iter_next(c, it):
    """-> (cond, item, new iterator) or None"""
    if it.op == 'ite':
        return None
    if it.op != 'adt': return None
    k = it.a[0]; f = it.a[2:]
    if k == '$SliceIter':
        base, i = f
        n = LEN(c.I.deref_val(c.st, base))
        return BIN('Lt', i, n, 'bool'), refinto(c, base, ('i', i)), iter_adt('SliceIter', base, BIN('Add', i, Z(1), 'usize'))
    if k == '$IntoIter':
        base, i = f
        return BIN('Lt', i, LEN(base), 'bool'), PROJ(base, ('i', i)), iter_adt('IntoIter', base, BIN('Add', i, Z(1), 'usize'))
    if k == 'core::ops::range::Range':
        a, b = f
        t = a.ty or b.ty or 'usize'
        return BIN('Lt', a, b, 'bool'), a, mk('adt', k, 0, BIN('Add', a, INT(1, t), t), b)
    if k == 'core::ops::range::RangeInclusive' or k == '$RangeInc':
        a, b = f[0], f[1]
        t = a.ty or b.ty or 'usize'
        done = f[2] if len(f) > 2 else BOOL(False)
        # modelled as a half-open range one wider type up (no overflow for the ranges used here)
        return AND(NOT(done), BIN('Le', a, b, 'bool')), a, mk('adt', k, 0, BIN('Add', a, INT(1, t), t), b, done)
    if k == '$Rev':
        v = f[0]
        if v.op == 'adt' and v.a[0] == 'core::ops::range::Range':
            a, b = v.a[2:]
            t = a.ty or b.ty or 'usize'
            x = BIN('Sub', b, INT(1, t), t)
            return BIN('Lt', a, b, 'bool'), x, iter_adt('Rev', mk('adt', v.a[0], 0, a, x))
        return None
    if k == '$Enumerate':
        r = iter_next(c, f[0])
        if r is None: return None
        return r[0], mk('tuple', f[1], r[1]), iter_adt('Enumerate', r[2], BIN('Add', f[1], Z(1), 'usize'))
    if k == '$Zip':
        r = iter_next(c, f[0]); s = iter_next(c, f[1])
        if r is None or s is None: return None
        return AND(r[0], s[0]), mk('tuple', r[1], s[1]), iter_adt('Zip', r[2], s[2])
    if k == '$Copied':
        r = iter_next(c, f[0])
        if r is None: return None
        return r[0], c.I.deref_val(c.st, r[1]), iter_adt('Copied', r[2])
    if k == '$Map':
        r = iter_next(c, f[0])
        if r is None: return None
        x = under(c, r[0], lambda: c.callv(f[1], [r[1]]))
        return r[0], x, iter_adt('Map', r[2], f[1])
    if k == '$Take':
        r = iter_next(c, f[0])
        if r is None: return None
        return AND(NOT(BIN('Eq', f[1], Z(0), 'bool')), r[0]), r[1], iter_adt('Take', r[2], BIN('Sub', f[1], Z(1), 'usize'))
    return None
def next_model(c):
    it = c.load(0)
    if it.op == 'ref' : it = c.I.deref_val(c.st, it)
    r = iter_next(c, it)
    if r is None: return NotImplemented
    cond, item, new = r
    d = c.I.decide(c.st, cond)
    if d is True: c.store(0, new); return SOME(item)
    if d is False: return NONE()
    c.store(0, ITE(cond, new, it))
    return ITE(cond, SOME(item), NONE())
MODELS_RX.append((re.compile(r'^.*Iterator.*::next$'), next_model))
@model('core::ops::range::RangeInclusive::<Idx>::new')
def _(c): return mk('adt', 'core::ops::range::RangeInclusive', 0, c.args[0], c.args[1], BOOL(False))
@model('core::str::<impl str>::chars')
def _(c): return iter_adt('Chars', c.load(0), Z(0))
@model('core::iter::traits::iterator::Iterator::nth')
def _(c):
    it = c.load(0)
    if it.op == 'adt' and it.a[0] == '$Chars' and it.a[2].op == 'str':
        s = it.a[2].a[0]; i = c.val(1)
        if isint(i):
            k = i.a[0]
            return SOME(INT(ord(s[k]), 'char')) if k < len(s) else NONE()
        return ITE(BIN('Lt', i, Z(len(s)), 'bool'), SOME(mk('app', 'charat', it.a[2], i, ty='char')), NONE())
    return NotImplemented
# internal iteration: inline the reference definition
def ref_fn(c, name, args=None):
    b = c.I.F.bodies.get('vprelude::' + name)
    if b is None: return NotImplemented
    r = c.I.inline(c.fr, c.st, b, (), list(args if args is not None else c.args), c.line)
    return 'diverge' if r is None else r
IT = 'core::iter::traits::iterator::Iterator::'
for _n in ('for_each', 'fold', 'all', 'any', 'find', 'position', 'count'):
    MODELS[IT + _n] = (lambda n: lambda c: ref_fn(c, n))(_n)
def is_result(t): return t is not None and t[0] == 'adt' and t[1] == 'core::result::Result'
@model(IT + 'try_for_each')
def _(c): return ref_fn(c, 'try_for_each') if is_result(c.dty) else NotImplemented
@model(IT + 'try_fold')
def _(c): return ref_fn(c, 'try_fold') if is_result(c.dty) else NotImplemented
@model(IT + 'sum')
def _(c):
    t = tystr(c.dty)
    if t in WIDTH: return ref_fn(c, 'sum_' + t)
    if is_result(c.dty) and tystr(c.dty[2][0]) in WIDTH: return ref_fn(c, 'sumr_' + tystr(c.dty[2][0]))
    return NotImplemented
@model(IT + 'collect')
def _(c):
    t = c.dty
    def vec(t): return t is not None and t[0] == 'adt' and t[1] == 'alloc::vec::Vec'
    if vec(t): return ref_fn(c, 'collect_vec')
    if is_result(t) and vec(t[2][0]): return ref_fn(c, 'collect_res_vec')
    return NotImplemented
@model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend', '<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'+"'a"+' T>>::extend')
def _(c):
    b = c.val(1)
    if b.op == 'ref': b = iter_adt('Copied', iter_adt('SliceIter', b, Z(0)))
    elif b.op in ('vecnew', 'push', 'arr', 'build'): b = iter_adt('IntoIter', b, Z(0))
    elif '&' in c.path: b = iter_adt('Copied', b)
    return ref_fn(c, 'extend', [c.args[0], b])
def call_fn(c):
    a = c.val(1)
    if a.op != 'tuple': return NotImplemented
    f = c.args[0]; home = None
    while f.op == 'ref':
        home = f; f = c.I.load(c.st, f.a[0], f.a[1])
    if f.op not in ('closure', 'fnitem'): return NotImplemented
    r = c.I.call_value(c.fr, c.st, f, list(a.a), c.dty, c.line) if f.op == 'fnitem' else c.I.call_closure(c.fr, c.st, f, list(a.a), c.line, home)
    return 'diverge' if r is None else r
model('core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call', 'core::ops::function::FnOnce::call_once')(call_fn)

# ------------------------------------------------------------------ integers
def ity(c): 
    t = tystr(c.atys[0]) if c.atys else None
    return t or c.args[0].ty
@model_rx(r'^core::num::<impl [iu]\w+>::(wrapping_\w+)$')
def _(c):
    t = ity(c); op = c.name[9:]
    M = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}
    if op in M:
        y = c.val(1)
        return BIN(M[op], c.val(0), y, t)
    if op == 'neg': return UN('Neg', c.val(0), t)
    if op == 'abs': x = c.val(0); return ITE(BIN('Lt', x, INT(0, t), 'bool'), UN('Neg', x, t), x)
    return NotImplemented
@model_rx(r'^core::num::<impl [iu]\w+>::(checked_(add|sub|mul))$')
def _(c):
    t = ity(c); M = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul'}[c.name]
    o = c.I.overflow(c.st, M, c.val(0), c.val(1), t)
    d = c.I.decide(c.st, o)
    v = BIN(M, c.val(0), c.val(1), t)
    if d is True: return NONE()
    if d is False: return SOME(v)
    return ITE(o, NONE(), SOME(v))
@model_rx(r'^core::num::<impl [iu]\w+>::(checked_(div|rem))$')
def _(c):
    t = ity(c)
    z = BIN('Eq', c.val(1), INT(0, t), 'bool')
    return ITE(z, NONE(), SOME(BIN('Div' if c.name.endswith('div') else 'Rem', c.val(0), c.val(1), t)))
@model_rx(r'^core::num::<impl [iu]\w+>::(checked_sh[lr])$')
def _(c):
    t = ity(c)
    ok = BIN('Lt', c.val(1), INT(WIDTH[t], 'u32'), 'bool')
    return ITE(ok, SOME(BIN('Shl' if c.name.endswith('l') else 'Shr', c.val(0), c.val(1), t)), NONE())
@model_rx(r'^core::num::<impl [iu]\w+>::(saturating_(add|sub|mul))$')
def _(c):
    t = ity(c); M = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[c.name[11:]]
    o = c.I.overflow(c.st, M, c.val(0), c.val(1), t)
    if t in SIGNED: return mk('app', c.name, c.val(0), c.val(1), ty=t)
    return ITE(o, INT(0 if M == 'Sub' else rng(t)[1], t), BIN(M, c.val(0), c.val(1), t))
@model_rx(r'^core::num::<impl u\w+>::(div_ceil)$')
def _(c):
    t = ity(c); x, y = c.val(0), c.val(1)
    if c.panic(BIN('Eq', y, INT(0, t), 'bool'), 'div0'): return 'diverge'
    if isint(x) and isint(y): return INT(-(-x.a[0] // y.a[0]), t)
    if x.op == 'dm' and isint(y) and y.a[0] == 8: return BIN('Add', x.a[0], INT(1 if x.a[1] else 0, t), t)
    return mk('app', 'div_ceil', x, y, ty=t)
@model_rx(r'^core::num::<impl u\w+>::(next_multiple_of)$')
def _(c):
    t = ity(c); x, y = c.val(0), c.val(1)
    if c.panic(BIN('Eq', y, INT(0, t), 'bool'), 'div0'): return 'diverge'
    return mk('app', 'align_up', x, y, ty=t)
@model_rx(r'^core::num::<impl u\w+>::(abs_diff)$')
def _(c):
    t = ity(c); x, y = c.val(0), c.val(1)
    return ITE(BIN('Le', x, y, 'bool'), BIN('Sub', y, x, t), BIN('Sub', x, y, t))
@model_rx(r'^core::num::<impl i\w+>::(abs_diff)$')
def _(c):
    t = ity(c); x, y = c.val(0), c.val(1); u = 'u' + t[1:]
    return ITE(BIN('Le', x, y, 'bool'), BIN('Sub', CAST(y, t, u), CAST(x, t, u), u), BIN('Sub', CAST(x, t, u), CAST(y, t, u), u))
@model_rx(r'^core::num::<impl i\w+>::(unsigned_abs)$')
def _(c):
    t = ity(c); x = c.val(0); u = 'u' + t[1:]
    return ITE(BIN('Lt', x, INT(0, t), 'bool'), CAST(UN('Neg', x, t), t, u), CAST(x, t, u))
@model_rx(r'^core::num::<impl i\w+>::(abs)$')
def _(c):
    t = ity(c); x = c.val(0)
    if c.panic(BIN('Eq', x, INT(rng(t)[0], t), 'bool'), 'overflow', (x,)): return 'diverge'
    return ITE(BIN('Lt', x, INT(0, t), 'bool'), UN('Neg', x, t), x)
@model_rx(r'^core::num::<impl i\w+>::(checked_abs|checked_neg)$')
def _(c):
    t = ity(c); x = c.val(0)
    v = UN('Neg', x, t) if c.name.endswith('neg') else ITE(BIN('Lt', x, INT(0, t), 'bool'), UN('Neg', x, t), x)
    return ITE(BIN('Eq', x, INT(rng(t)[0], t), 'bool'), NONE(), SOME(v))
@model_rx(r'^core::num::<impl [iu]\w+>::(leading_zeros|trailing_zeros|count_ones|ilog2|checked_ilog2|pow|rotate_left|rotate_right|swap_bytes|to_be|from_be|is_power_of_two|rem_euclid|div_euclid|leading_ones|isqrt|signum)$')
def _(c):
    x = c.val(0); t = ity(c)
    if isint(x) and all(isint(c.val(i)) for i in range(len(c.args))):
        v = x.a[0] & ((1 << WIDTH[t]) - 1)
        if c.name == 'leading_zeros': return INT(WIDTH[t] - v.bit_length(), 'u32')
        if c.name == 'trailing_zeros': return INT((v & -v).bit_length() - 1 if v else WIDTH[t], 'u32')
        if c.name == 'count_ones': return INT(bin(v).count('1'), 'u32')
        if c.name == 'pow': return INT(x.a[0] ** c.val(1).a[0], t)
    dt = tystr(c.dty)
    r = mk('app', 'int:' + c.name, *[c.val(i) for i in range(len(c.args))], ty=dt)
    if dt is None: return NotImplemented
    return r
@model_rx(r'^core::num::<impl [iu]\w+>::(to_be_bytes|to_le_bytes|to_ne_bytes)$')
def _(c):
    t = ity(c); x = c.val(0)
    n = WIDTH[t] // 8
    order = range(n - 1, -1, -1) if 'be' in c.name else range(n)
    return mk('arr', *[CAST(BIN('Shr', x, INT(8 * i, 'u32'), t), t, 'u8') for i in order])
@model_rx(r'^core::num::<impl [iu]\w+>::(from_be_bytes|from_le_bytes|from_ne_bytes)$')
def _(c):
    t = tystr(c.dty); x = c.val(0)
    n = WIDTH[t] // 8
    if x.op != 'arr' : return mk('app', c.name, x, ty=t)
    r = INT(0, t)
    for i in range(n):
        sh = 8 * (n - 1 - i) if 'be' in c.name else 8 * i
        r = BIN('BitOr', r, BIN('Shl', CAST(x.a[i], 'u8', t), INT(sh, 'u32'), t), t)
    return r
@model_rx(r'^core::(f32|f64)::<impl f\d+>::(to_be_bytes|from_be_bytes|to_bits|from_bits|to_le_bytes|from_le_bytes)$', r'^half::binary16::f16::(\w+)$')
def _(c):
    inv = {'to_be_bytes': 'from_be_bytes', 'from_be_bytes': 'to_be_bytes', 'to_bits': 'from_bits', 'from_bits': 'to_bits'}
    x = c.val(0)
    fam = c.path.split('::')[1] if c.path.startswith('core') else 'f16'
    if c.path.startswith('core'): fam = c.path.split('impl ')[1].split('>')[0]
    if c.name in inv and x.op == 'app' and x.a[0] == '%s::%s' % (fam, inv[c.name]): return x.a[1]
    if c.name == 'to_be_bytes': return mk('app', '%s::to_be_bytes' % fam, x)
    return mk('app', '%s::%s' % (fam, c.name), x, ty=tystr(c.dty))
@model_rx(r'^<?core::ops::.*$|^<.* as core::ops::(arith|bit)::.*>::\w+$|^core::ops::(arith|bit)::\w+::\w+$')
def _(c):
    M = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
    t = tystr(c.dty)
    if c.name in M and t in WIDTH and len(c.args) == 2:
        x, y = c.val(0), c.val(1)
        if x.op == 'ref': x = c.I.deref_val(c.st, x)
        if y.op == 'ref': y = c.I.deref_val(c.st, y)
        if M[c.name] in ('Add', 'Sub', 'Mul'):
            o = c.I.overflow(c.st, M[c.name], x, y, t)
            if c.panic(o, 'overflow', (x, y)): return 'diverge'
        return BIN(M[c.name], x, y, t)
    if c.name == 'not' and t: return UN('Not', c.val(0), t)
    if c.name == 'neg' and t: return UN('Neg', c.val(0), t)
    return NotImplemented
@model('num_traits::cast::ToPrimitive::to_u64')
def _(c):
    x = c.load(0); t = x.ty
    if t in WIDTH: 
        ok = BIN('Le', INT(0, t), x, 'bool')
        return ITE(ok, SOME(CAST(x, t, 'u64')), NONE())
    return NotImplemented
@model('num_traits::identities::Zero::is_zero')
def _(c):
    x = c.load(0)
    return BIN('Eq', x, INT(0, x.ty), 'bool') if x.ty in WIDTH else NotImplemented
@model('num_traits::identities::One::is_one')
def _(c):
    x = c.load(0)
    return BIN('Eq', x, INT(1, x.ty), 'bool') if x.ty in WIDTH else NotImplemented
@model('num_traits::cast::NumCast::from')
def _(c):
    x = c.val(0); f = x.ty
    d = c.dty
    t = tystr(d[2][0]) if d and d[0] == 'adt' else None
    if f in WIDTH and t in WIDTH:
        r = try_cast(x, f, t)
        k = is_ok(r)
        return ITE(k, SOME(okv(r)), NONE())
    return NotImplemented

# ------------------------------------------------------------------ misc
@model_rx(r'^core::sync::atomic::Atomic::<\w+>::load$', r'^core::sync::atomic::Atomic\w+::load$')
def _(c): return mk('app', 'atomic_load', c.deep(c.args[0]), ty=tystr(c.dty))
@model_rx(r'^core::sync::atomic::Atomic::<\w+>::store$')
def _(c):
    c.op('atomic_store', c.deep(c.args[0]), c.args[1]); return UNIT()
@model_rx(r'^core::panicking::.*$', r'^core::option::(unwrap|expect)_failed$', r'^core::result::unwrap_failed$', r'^std::rt::begin_panic.*$')
def _(c):
    c.panic(BOOL(True), 'panic:' + c.name)
    return 'diverge'
@model_rx(r"^core::fmt::rt::Argument::<.*>::new_display$")
def _(c):
    x = c.deep(c.load(0))
    while x.op == 'ref': x = c.deep(c.I.deref_val(c.st, x))
    while x.op == 'deref_of': x = x.a[0]
    t = c.targs[0] if c.targs else None
    while t is not None and t[0] == 'ref': t = t[2]
    if t == ('str',) or t is not None and t[0] == 'adt' and t[1].endswith('::String'): return mk('app', 'fmtarg', x)
    return mk('app', 'fmtarg?', x)
@model_rx(r"^core::fmt::Arguments::<.*>::new$")
def _(c):
    tpl, args = c.deep(c.load(0)), c.deep(c.load(1))
    r = fmtparts(tpl, args)
    return mk('app', 'fmt', *r) if r is not None else mk('app', 'fmt', tpl)
def fmtparts(tpl, args):
    """pieces of a format template whose arguments are all strings, None for anything else"""
    if tpl.op != 'arr' or args.op != 'arr' or not all(x.op == 'int' for x in tpl.a): return None
    b = [x.a[0] for x in tpl.a]; out = []; i = n = 0
    while i < len(b) and b[i]:
        if b[i] == 192:
            if n >= len(args.a) or args.a[n].op != 'app' or args.a[n].a[0] != 'fmtarg': return None
            out.append(args.a[n].a[1]); n += 1; i += 1
        elif b[i] < 128:
            out.append(mk('str', bytes(b[i + 1:i + 1 + b[i]]).decode())); i += 1 + b[i]
        else: return None
    return out
@model_rx(r'^alloc::fmt::format$')
def _(c):
    a = c.val(0)
    if a.op == 'app' and a.a[0] == 'fmt' and len(a.a) > 1 and not (len(a.a) == 2 and a.a[1].op == 'arr'): return CONCAT(a.a[1:])
    return mk('app', 'fmt', c.deep(a))
@model_rx(r'^core::fmt::.*$', r'^alloc::fmt::format$', r'^<.* as core::fmt::.*>::fmt$')
def _(c):
    if c.path in c.I.F.bodies: return NotImplemented
    return mk('app', 'fmt', *[c.deep(a) for a in c.args[:1]])
@model_rx(r'^.*intrinsics::.*$')
def _(c): return NotImplemented
