"""C01-C04: the schema compiler itself (determinism, effects, completeness, compilable output)."""
from engine import build
from engine.facts import ty_str, succs
from engine.mirflow import callee, errflow, restype, PANICS
from engine.effects import *

# --- C01 ---------------------------------------------------------------------------------------------------------------

UNORD = ('std::collections::hash::map::', 'std::collections::hash::set::', 'hashbrown::')
CONT = ('HashMap', 'HashSet')
def hashcont(t):
    return t is not None and t[0] == 'adt' and t[1].startswith(UNORD) and t[1].split('::')[-1] in CONT
def unordered(t):
    """t is (or wraps) an iterator over a hash container or a directory"""
    for x in tys(t):
        if x[0] == 'adt':
            n = x[1].split('::')[-1]
            if x[1].startswith(UNORD) and n not in CONT and n not in ('Entry', 'OccupiedEntry', 'VacantEntry', 'RandomState', 'DefaultHasher'): return x[1]
            if x[1] in ('walkdir::IntoIter', 'walkdir::FilterEntry', 'std::fs::ReadDir'): return x[1]
    return None
SORTED = {'sorted', 'sorted_unstable', 'sorted_by', 'sorted_unstable_by', 'sorted_by_key', 'sorted_unstable_by_key', 'sorted_by_cached_key'}
COMMUTES = {'count', 'any', 'all', 'max', 'min', 'sum', 'product', 'len', 'is_empty', 'size_hint', 'is_sorted'}
KEYED = ('alloc::collections::btree::map::BTreeMap', 'alloc::collections::btree::set::BTreeSet', 'std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')
AMBIENT = ('std::time::', '<std::time::', 'std::env::', 'std::process::', 'std::thread::', 'std::net::', 'rand::', 'std::hash::random::', '<std::hash::random::', 'core::any::type_name', 'std::any::type_name',
           'core::any::TypeId', "core::fmt::rt::Argument::<'_>::new_pointer", 'std::fs::metadata', 'std::fs::canonicalize', 'std::fs::read_dir', 'std::fs::read_link', 'std::path::Path::canonicalize', 'std::path::Path::metadata', 'std::path::Path::read_dir',
           'std::path::Path::exists', 'std::path::Path::try_exists', 'std::fs::exists', 'walkdir::dent::DirEntry::metadata', 'std::sys::', 'std::thread_local', 'std::fs::Metadata::', 'std::io::stdio::stdin', 'std::panic::Location::caller')
EXTCRATES = {'core', 'alloc', 'std', 'antlr_rust', 'codegen', 'itertools', 'log', 'prettyplease', 'stringcase', 'syn', 'walkdir', 'zserio', 'clap', 'clap_builder', 'simple_logger', 'hashbrown'}

def C01(c):
    c.rule('an iteration over a hash container or a directory only feeds consumers whose result does not depend on the order: sorting by the element itself, keyed containers, commutative reductions, or a loop that only fills a keyed container')
    c.rule('the schema compiler calls nothing that reads the clock, the environment, random state, the process, addresses or file metadata, keeps no mutable global state, and reads no file but the schemas')
    c.rule('the location of the schemas and of the output does not enter the generated text: strings made from a path only reach logs, panics and comparisons')
    F = build.load('all')
    n = 0
    for b in genbodies(F):
        n += 1
        order(c, F, b)
        ambient(c, F, b)
        paths(c, F, b)
    c.count('functions', n)
    for s in F.statics:
        if s['crate'] in ('zserio_rs_build', 'genmain') and '::parser::gen::' not in s['path'] and ' as clap' not in s['path']:
            c.check(frozen(F, s['ty']) and not s.get('mut'), 'static:' + s['path'], 'the schema compiler keeps mutable global state in %s' % s['path'], 'statics')
    c.floor('functions', 200); c.floor('calls', 3500); c.floor('files read', 1)
    c.assumptions += ['antlr-rust, codegen, syn, prettyplease, stringcase, itertools and log produce the same output for the same calls', 'two runs see the same schema files']

def frozen(F, t, seen=()):
    for x in tys(t):
        if x[0] == 'adt':
            n = x[1].split('::')[-1]
            if n in ('Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'LocalKey', 'Lazy') or n.startswith('Atomic'): return False
            if x[1] in F.adts and x[1] not in seen:
                for v in F.adts[x[1]]['variants']:
                    for f in v['fields']:
                        if not frozen(F, f[1], seen + (x[1],)): return False
    return True

def opty(b, o):
    if o[0] in ('cp', 'mv'):
        t = b.locals[o[1][0]]
        for e in o[1][1]:
            if e == '*': t = t[2] if t and t[0] in ('ref', 'ptr') else (t[2][0] if t and t[0] == 'adt' and t[1].endswith('Box') else None)
            elif e[0] == 'f': t = e[2]
            elif e[0] == 'd': pass
            else: t = None
        return t
    if o[0] == 'c': return o[2]
    return None

def order(c, F, b):
    D = None
    for i, t in calls(b):
        c.count('calls')
        p, n = callee(t)
        if p is None: continue
        args = [(o, opty(b, o)) for o in t[2]]
        hot = [j for j, (o, ty) in enumerate(args) if unordered(ty)]
        dty = b.locals[t[3][0]] if not t[3][1] else None
        # a hash container handed over as a whole to something that walks it
        whole = [ty for o, ty in args if ty is not None and any(hashcont(x) for x in ([ty] + ([ty[2]] if ty[0] == 'ref' else [])))]
        if whole and not hot and not unordered(dty):
            if p.startswith("core::fmt::rt::Argument") and not logged(b, i):
                c.violation('order:%s:%s' % (b.path, n), '%s formats a hash container: its elements come in a different order in every run' % where(b, t[-1])); continue
            if n in ('from_iter', 'extend', 'retain', 'drain', 'extract_if', 'chain', 'append', 'zip', 'eq_by', 'collect', 'from', 'into') and not hashcont(dty) and not hashcont(recv(b, t)):
                c.violation('order:%s:%s' % (b.path, n), '%s feeds a hash container to %s: its elements come in a different order in every run' % (where(b, t[-1]), n)); continue
        if not hot: continue
        if unordered(dty) or (dty is not None and dty[0] == 'ref' and unordered(dty[2])): continue
        src = unordered(args[hot[0]][1])
        if src.startswith('walkdir') and walksorted(b): c.ok('orderly iterations', 1, '%s: directory entries sorted' % where(b, t[-1])); continue
        D = D or Defs(b)
        why = consumer(F, b, D, i, t, n, p)
        c.check(why is None, 'order:%s:%s' % (b.path, n), '%s consumes %s in its arbitrary order: %s' % (where(b, t[-1]), src.split('::')[-2] + '::' + src.split('::')[-1], why), 'orderly iterations', '%s: %s' % (where(b, t[-1]), n))

def recv(b, t):
    ty = opty(b, t[2][0]) if t[2] else None
    return ty[2] if ty is not None and ty[0] == 'ref' else ty

def logged(b, i):
    """the formatted text of block i only reaches a panic or the log"""
    seen, todo = set(), [i]
    for _ in range(12):
        nxt = []
        for n in todo:
            for m in succs(b.blocks[n][1]):
                if m in seen: continue
                seen.add(m)
                t = b.blocks[m][1]
                if t[0] == 'call':
                    p, nm = callee(t)
                    if p and (p.startswith('log::') or 'panic' in p): return True
                    if p and p.startswith('alloc::fmt::format'): return False
                nxt.append(m)
        todo = nxt
    return False

def walksorted(b):
    return any((callee(t)[0] or '').startswith('walkdir::WalkDir::sort_by') for i, t in calls(b))

def consumer(F, b, D, i, t, n, p):
    """None when the call's use of the unordered iterator cannot make a difference"""
    if n in SORTED:
        if n.endswith('_key'):
            for o in t[2][1:]:
                cb = clos(F, b, o)
                if cb is None: return 'sorted by an unknown key'
                T = taint(cb, {l for l in range(1, cb.argc + 1)})
                if 0 not in T: return 'the sort key does not depend on the element'
        return None
    if n in COMMUTES: return None
    if n in ('into_iter', 'iter', 'by_ref', 'drop', 'fuse', 'next_back') and n != 'next_back': return None
    if n in ('collect', 'from_iter', 'extend', 'collect_vec'):
        d = b.locals[t[3][0]] if n != 'extend' else (opty(b, t[2][0]) or (None,))
        if d and d[0] == 'ref': d = d[2]
        if d and d[0] == 'adt' and d[1] in KEYED: return None
        if d and d[0] == 'adt' and d[1].endswith('Vec'):
            loc = t[3][0] if n != 'extend' else D.base(t[2][0][1][0])
            return None if sortednext(b, D, t[4], loc) else 'collected into a list that is not sorted before it is used'
        return 'collected into %s' % ty_str(d)
    if n == 'next':
        L = loop(b, i)
        if not L: return 'takes one arbitrary element'
        return body(F, b, D, i, L, t)
    if n == 'for_each':
        cb = clos(F, b, t[2][1])
        if cb is None: return 'unknown closure'
        return pure(F, cb, Defs(cb), [x for x, bl in enumerate(cb.blocks) if not bl[2]], {1})
    return 'the outcome of %s depends on it' % n

def clos(F, b, o):
    ty = opty(b, o)
    if o[0] == 'c' and o[1][0] == 'zst': ty = o[1][1]
    if o[0] == 'fn': return F.bodies.get(o[1].get('res') or o[1]['fn'])
    if ty is not None and ty[0] == 'closure': return F.bodies.get(ty[1])
    return None

def sortednext(b, D, start, loc):
    """on every path from start the first thing done with the list is sorting it"""
    seen, todo = set(), [(start, frozenset((loc,)))]
    while todo:
        n, al = todo.pop()
        if (n, al) in seen: continue
        seen.add((n, al))
        st, t, cl = b.blocks[n]
        al = set(al)
        for s in st:
            if s[0] != '=': continue
            rd = [o for o in operands(s[2]) if o[0] in ('cp', 'mv') and o[1][0] in al]
            if rd:
                if s[1][1] or s[2][0] not in ('use', 'ref', 'cast'): return False
                if s[1][0] == 0: return False
                al.add(s[1][0])
        if t[0] == 'call':
            used = [o for o in t[2] if o[0] in ('cp', 'mv') and o[1][0] in al]
            if used:
                nm = callee(t)[1]
                if nm and nm.startswith('sort'): continue
                if nm in ('deref_mut', 'as_mut_slice', 'push', 'len', 'is_empty', 'next', 'extend', 'reserve'):
                    al.add(t[3][0])
                else: return False
        elif t[0] == 'return': continue
        for m in succs(t): todo.append((m, frozenset(al)))
    return True

def body(F, b, D, i, L, t):
    # leaving the loop early makes the outcome depend on the order
    for n in L:
        for m in succs(b.blocks[n][1]):
            if m in L or b.blocks[m][2]: continue
            if not exhausted(b, n, t) and not dies(b, m): return 'the loop is left before the end'
    return pure(F, b, D, L, None, i)

def exhausted(b, n, t):
    """block n leaves the loop on the None of the `next` call t"""
    tt = b.blocks[n][1]
    if tt[0] != 'switch' or tt[1][0] not in ('cp', 'mv'): return False
    for s in b.blocks[n][0]:
        if s[0] == '=' and s[1] == tt[1][1] and s[2][0] == 'discr' and s[2][1][0] == t[3][0]: return True
    return False

def dies(b, n):
    """no return is reachable from block n"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if b.blocks[x][1][0] == 'return': return False
        todo += succs(b.blocks[x][1])
    return True

def pure(F, b, D, L, outer=None, head=None):
    """the blocks only fill keyed containers (or lists sorted afterwards) outside of themselves"""
    inside = set()
    for n in L:
        st, t, cl = b.blocks[n]
        for s in st:
            if s[0] == '=' and not s[1][1]: inside.add(s[1][0])
        if t[0] == 'call' and not t[3][1]: inside.add(t[3][0])
    alldefs = {}
    for x, (st, t, cl) in enumerate(b.blocks):
        if cl: continue
        for s in st:
            if s[0] == '=': alldefs.setdefault(s[1][0], set()).add(x)
        if t[0] == 'call': alldefs.setdefault(t[3][0], set()).add(x)
    carried = {l for l in inside if alldefs.get(l, set()) - set(L)}
    for n in L:
        st, t, cl = b.blocks[n]
        for s in st:
            if s[0] != '=': continue
            l, pr = s[1]
            if l in carried and b.locals[l] not in (('bool',), ('tuple', ())): return 'the loop carries %s from one element to the next' % (b.names[l] or 'a value')
            if pr and D.base(l) not in inside: return 'the loop stores into %s' % (b.names[D.base(l)] or 'outer state')
        if t[0] != 'call' or n == head: continue
        p, nm = callee(t)
        if p is None: return 'the loop calls through a pointer'
        if t[4] is None: continue
        if nm and (p.startswith('log::') or 'panic' in p): continue
        f = F.bodies.get(p)
        for j, o in enumerate(t[2]):
            if o[0] not in ('cp', 'mv'): continue
            ty = opty(b, o)
            if ty is None or ty[0] != 'ref' or not ty[1]: continue
            base = D.base(o[1][0])
            if base in inside and base not in carried: continue
            tgt = ty[2]
            if j == 0 and tgt[0] == 'adt' and tgt[1] in KEYED and nm in ('insert', 'entry', 'get_mut', 'extend', 'remove', 'contains_key'): continue
            if j == 0 and tgt[0] == 'adt' and tgt[1].endswith('Vec') and nm in ('push', 'extend') and outer is None:
                ends = [m for x in L for m in succs(b.blocks[x][1]) if m not in L and not b.blocks[m][2]]
                if all(sortednext(b, D, m, base) for m in ends): continue
            if nm == 'next': continue
            return 'the loop lets %s change %s' % (nm, b.names[base] or 'outer state')
        if f is not None and f.crate != 'zserio':
            for q, x in reach(F, f).items():
                for k, u in calls(x):
                    pp, nn = callee(u)
                    if pp and pp.startswith(('std::fs::File::create', 'std::fs::write', 'std::fs::OpenOptions')): return 'the loop writes files in %s' % nm
                    if nn == 'borrow_mut' and pp and 'RefCell' in pp: return 'the loop changes shared state in %s' % nm
    return None

def ambient(c, F, b):
    for i, t in calls(b):
        p, n = callee(t)
        if p is None: continue
        if p.startswith(AMBIENT):
            c.violation('ambient:%s:%s' % (b.path, n), '%s calls %s: its outcome differs between runs on the same schemas' % (where(b, t[-1]), p)); continue
        f = F.bodies.get(p)
        if f is None and t[1][1].get('rkind') != 'virtual':
            root = p.lstrip('<&').replace('mut ', '').split('::')[0].split(' ')[0]
            if root and root[0].islower() and '::' in p.lstrip('<&') and root not in EXTCRATES and root not in ('zserio_rs_build', 'genmain') and len(root) > 1 and root not in ('i128', 'str', 'dyn'):
                c.violation('crate:%s:%s' % (b.path, root), '%s calls %s: the crate %s is not known to be deterministic' % (where(b, t[-1]), p, root))
        if p.startswith(('std::fs::read', 'std::fs::File::open')):
            c.check(readsschema(b), 'read:%s' % b.path, '%s reads a file that is not the schema it was given' % where(b, t[-1]), 'files read', where(b, t[-1]))
    for st, t, cl in b.blocks:
        for s in st:
            if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                c.violation('address:%s' % b.path, '%s turns an address into a number' % where(b, s[3]))

def readsschema(b):
    return 'model::package' in b.path or 'model::Model' in b.path

PATHY = ('std::path::Path', 'std::path::PathBuf', 'std::ffi::os_str::OsStr', 'std::ffi::os_str::OsString', 'walkdir::dent::DirEntry')
TEXT = {'str', 'String', 'Display', 'Cow'}
QUIET = {'ends_with', 'starts_with', 'eq', 'ne', 'contains', 'cmp', 'is_empty', 'len', 'eq_ignore_ascii_case', 'join', 'push', 'deref', 'as_ref', 'borrow', 'from', 'into', 'new', 'to_owned', 'clone', 'as_str', 'to_str', 'unwrap', 'expect', 'to_string', 'to_ascii_lowercase', 'to_lowercase', 'to_string_lossy', 'as_path',
         'drop', 'unwrap_or', 'unwrap_or_default', 'and_then', 'map', 'as_deref', 'is_some', 'is_none', 'is_some_and', 'map_or', 'file_name', 'extension', 'must_use', 'format', 'into_owned', 'file_stem', 'parent', 'strip_prefix', 'to_ascii_uppercase', 'with_extension'}
def paths(c, F, b):
    """text made from a path stays in logs, panics and comparisons"""
    src = []
    for i, t in calls(b):
        if not t[2] or t[3][1]: continue
        ty = recv(b, t); d = b.locals[t[3][0]]
        p, n = callee(t)
        if p is None or p.startswith(('std::fs::', 'std::io::')): continue     # the content of a file, not its location
        if ty is not None and ty[0] == 'adt' and ty[1] in PATHY and any((x[0] == 'str') or (x[0] == 'adt' and x[1].split('::')[-1] in TEXT) for x in tys(d)) and n not in ('ends_with', 'starts_with', 'eq'):
            src.append((i, t))
    if not src: return
    D = Defs(b)
    for i, t in src:
        bad = textflow(F, b, D, t[3][0])
        c.check(bad is None, 'path:%s:%s' % (b.path, callee(t)[1]), '%s: the text of a path %s' % (where(b, t[-1]), bad), 'texts made from paths', where(b, t[-1]))

def textflow(F, b, D, loc):
    T = {loc}; todo = [loc]
    istext = lambda ty: ty is not None and any(x[0] == 'str' or (x[0] == 'adt' and x[1].split('::')[-1] in TEXT | {'Argument', 'Arguments'}) for x in tys(ty))
    while todo:
        l = todo.pop()
        if l == 0: return 'is returned'
        for st, t, cl in b.blocks:
            if cl: continue
            for s in st:
                if s[0] != '=' or not any(o[0] in ('cp', 'mv') and o[1][0] == l for o in operands(s[2])): continue
                if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in F.adts and F.adts[s[2][1][1]].get('crate') == b.crate:
                    if listener(F, s[2][1][1]): continue
                    return 'is stored in %s' % s[2][1][1].split('::')[-1]
                if s[1][0] not in T and (istext(b.locals[s[1][0]]) or s[2][0] in ('ref', 'use')): T.add(s[1][0]); todo.append(s[1][0])
            if t[0] == 'call' and any(o[0] in ('cp', 'mv') and o[1][0] == l for o in t[2]):
                p, n = callee(t)
                if p is None: return 'reaches a call through a pointer'
                if p.startswith('log::') or 'panic' in p or t[4] is None: continue
                if p.startswith('std::fs::') or p.startswith('core::fmt::'): pass
                elif n not in QUIET or p in F.bodies: return 'reaches %s' % p.split('::')[-1]
                if not t[3][1] and t[3][0] not in T and istext(b.locals[t[3][0]]): T.add(t[3][0]); todo.append(t[3][0])
                if n == 'push' and t[2][0][0] in ('cp', 'mv'):
                    q = D.base(t[2][0][1][0])
                    if q not in T: T.add(q); todo.append(q)
    return None

def listener(F, adt):
    return any(im['self'] is not None and im['self'][0] == 'adt' and im['self'][1] == adt for im in F.impl_index.get('antlr_rust::error_listener::ErrorListener', []))

# --- C02 ---------------------------------------------------------------------------------------------------------------

READS = {'std::fs::read_to_string', 'std::fs::read', 'std::fs::File::open'}
WRITES = {'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::create_dir', 'std::fs::create_dir_all', 'std::fs::write', 'std::fs::OpenOptions::open'}
HARMLESS = ('std::fs::OpenOptions::', 'std::fs::File::flush', 'std::fs::File::sync', '<std::fs::File as core::io::', '<std::fs::File as std::io::', '<&std::fs::File', '<std::fs::OpenOptions', 'std::fs::exists', 'std::fs::metadata', 'std::fs::Metadata::', 'std::fs::DirBuilder::new', 'std::fs::File::metadata', 'std::fs::canonicalize')
EFFECTS = ('std::fs::', 'std::os::', 'std::process::', 'std::net::', 'std::env::set', 'std::env::remove', 'std::thread::', 'std::panic::', 'std::panicking::', 'core::panic::unwind_safe', 'libc::')
IOERR = ('std::io::error::Error', 'core::io::error::Error', 'std::io::Error', 'walkdir::error::Error', 'antlr_rust::errors::ANTLRError', 'alloc::string::FromUtf8Error', 'core::str::error::Utf8Error')
def ioerr(e): return e is not None and any(x[0] == 'adt' and (x[1] in IOERR or x[1].endswith('io::error::Error')) for x in tys(e))

def C02(c):
    c.rule('the only file-system effects of the schema compiler are creating directories, creating files and reading schemas; it never removes, renames, links or changes anything else, runs no process and catches no panic')
    c.rule('every path that is created is the output directory given to generate_model, extended by join/push with components made of schema names and constants without separators or ".."; nothing climbs up from it')
    c.rule('every file that is read comes out of the walk over the schema directory and has passed a test of its extension')
    c.rule('every failure of a file-system call, the directory walk or the parser ends in a panic or is returned; text is written completely (write_all, fs::write) and buffers are flushed')
    F = build.load('all')
    bodies = list(genbodies(F))
    c.count('functions', len(bodies))
    O = Origins(F, bodies)
    roots = [b for b in bodies if b.path.endswith('::generate_model')]
    entry = [b for b in bodies if b.path.endswith('::from_filesystem')]
    if len(roots) != 1 or len(entry) != 1: c.violation('entry', 'generate_model or Model::from_filesystem is missing'); return
    outs = {('param', roots[0].path, i) for i in range(1, roots[0].argc + 1) if any(x == ('adt', 'std::path::Path', ()) or x[0] == 'adt' and x[1] in ('std::path::Path', 'std::path::PathBuf') for x in tys(roots[0].locals[i]))}
    ins = {('param', entry[0].path, i) for i in range(1, entry[0].argc + 1)}
    O.stop = outs | ins
    for b in bodies:
        for i, t in calls(b):
            c.count('calls')
            p, n = callee(t)
            if p is None: continue
            key = '%s:%s' % (b.path, n)
            if p in WRITES:
                o = t[2][1] if p.endswith('OpenOptions::open') else t[2][0]
                written(c, F, O, b, t, o, outs, key)
            elif p in READS:
                h = O.lift(O.operand(b, t[2][0], None, True), True)
                bad = sorted(h - ins)
                c.check(not bad and h, 'read:' + key, '%s reads a file that does not come from the schema directory: %s' % (where(b, t[-1]), atoms(bad)), 'reads', where(b, t[-1]))
                guarded(c, F, bodies, b, i, t)
            elif p.startswith(EFFECTS) and not p.startswith(HARMLESS):
                if p == 'std::process::exit' and not (t[2][0][0] == 'c' and t[2][0][1][:2] == ('int', 0)): continue
                c.violation('effect:' + key, '%s calls %s' % (where(b, t[-1]), p))
            elif p in ('std::fs::OpenOptions::append',): c.violation('effect:' + key, '%s appends to files instead of replacing them' % where(b, t[-1]))
            if n in ('remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'set_permissions', 'hard_link', 'catch_unwind', 'set_hook') and not p.startswith(EFFECTS): c.violation('effect:' + key, '%s calls %s' % (where(b, t[-1]), p))
            if n == 'write' and 'io::' in p and 'fmt' not in p: c.violation('write:' + key, '%s writes with Write::write, which may write only a part' % where(b, t[-1]))
            if n in ('new', 'with_capacity') and any(x[0] == 'adt' and x[1].split('::')[-1] in ('BufWriter', 'LineWriter') for x in tys(b.locals[t[3][0]])):
                c.check(flushed(b, t[4]), 'flush:' + key, '%s: a buffered writer is dropped without a checked flush' % where(b, t[-1]), 'buffers')
            # failures of the walk over the directory
            ts = [opty(b, o) for o in t[2]]
            if n in ('flatten', 'filter_map', 'flat_map', 'find_map', 'map_while', 'take_while', 'skip_while', 'last', 'count', 'nth', 'step_by') and any(x[0] == 'adt' and x[1].startswith('walkdir::') for ty in ts for x in tys(ty)):
                c.violation('walk:' + key, '%s drops failures of the directory walk through %s' % (where(b, t[-1]), n))
            if n in SWALLOWS and p.startswith(('core::result::Result', '<core::result::Result')) and ts and ts[0] is not None:
                r = restype(ts[0] if ts[0][0] != 'ref' else ts[0][2])
                if r and ioerr(r[1]) and not (n == 'unwrap_or_else' and flowdiverges(F, b, t)): c.violation('flow:' + key, '%s discards a failure through %s' % (where(b, t[-1]), n))
    seen = {}
    n = errflow(F, bodies, lambda k, m: seen.setdefault(k, m), None, ioerr)
    for k, m in sorted(seen.items()): c.violation('flow:' + k, short(m))
    c.ok('fallible calls', n, 'failures of files, directories and the parser, followed on all paths')
    # the command line hands its directories over in the right places
    for b in bodies:
        for i, t in calls(b):
            p, n = callee(t)
            if b.crate == 'genmain' and p == roots[0].path:
                for _, _, k in outs:
                    a = O.operand(b, t[2][k - 1], None, True)
                    c.check(a and all(x[0] == 'field' and x[2] == 'out' for x in a), 'main:out', '%s does not generate into the directory given by --out: %s' % (where(b, t[-1]), atoms(a)), 'command line')
            if b.crate == 'genmain' and p == entry[0].path:
                a = O.operand(b, t[2][0], None, True)
                c.check(a and all(x[0] == 'field' and x[2] == 'zserio_path' for x in a), 'main:in', '%s does not read the directory given on the command line: %s' % (where(b, t[-1]), atoms(a)), 'command line')
    c.floor('functions', 200); c.floor('writes', 1); c.floor('reads', 1); c.floor('fallible calls', 3); c.floor('command line', 2)
    c.assumptions += ['names in schemas are identifiers (the lexer\'s ID token: letters, digits and underscores)', 'stringcase, codegen, prettyplease and syn have no file-system effects', 'the output directory contains no symbolic links that lead out of it']

SWALLOWS = {'ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'map_or_else', 'is_ok_and', 'is_ok', 'is_err', 'iter', 'into_iter', 'err'}
def flowdiverges(F, b, t):
    from engine.mirflow import Flow, diverges
    return diverges(Flow(F, b, None).closure_body(t[2][1]))

def atoms(a): return ', '.join(sorted('.'.join(short(str(y)).split('::')[-1] for y in x[1:]) if x[0] != 'const' else repr(x[1]) for x in a)) or 'nothing known'

def written(c, F, O, b, t, o, outs, key):
    w = where(b, t[-1])
    head = O.lift(O.operand(b, o, None, True), True)
    bad = sorted(head - outs)
    c.check(head and not bad, 'root:' + key, '%s creates something outside of the output directory: the path starts with %s' % (w, atoms(bad or head)), 'writes', '%s: beneath the output directory' % w)
    parts = O.lift(O.operand(b, o)) - outs
    for a in sorted(parts):
        if a[0] == 'const':
            if '/' in a[1] or '\\' in a[1] or '..' in a[1] or ':' in a[1]: c.violation('part:%s:%s' % (key, a[1]), '%s: the path contains %r' % (w, a[1]))
        elif a[0] == 'field':
            ok = '::ast::' in a[1] and a[2] in ('name', 'package')
            if not ok: c.violation('part:%s:%s' % (key, a[2]), '%s: the path contains %s.%s, which need not be a name' % (w, a[1].split('::')[-1], a[2]))
        elif a[0] == 'op': c.violation('part:%s:%s' % (key, a[1]), '%s: the path is changed by %s' % (w, a[1]))
        elif a[0] == 'call' and a[1].split('::')[-1] in ('current_dir', 'temp_dir', 'var', 'args'): c.violation('part:%s:%s' % (key, a[1]), '%s: the path depends on %s' % (w, a[1]))
        elif a[0] == 'call': c.violation('part:%s:%s' % (key, a[1]), '%s: the path contains the result of %s' % (w, a[1]))
        else: c.violation('part:%s:%s' % (key, a[-1]), '%s: the path contains parameter %s of %s' % (w, a[2], short(a[1])))

def flushed(b, start):
    seen, todo = set(), [start]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        t = b.blocks[n][1]
        if t[0] == 'return': return False
        if t[0] == 'call' and callee(t)[1] in ('flush', 'into_inner', 'into_parts'): continue
        todo += succs(t)
    return True

def guarded(c, F, bodies, b, i, t):
    """the file that is read has passed a test of its extension, here or in every caller"""
    if extguard(b, i): c.ok('extension tests', 1, where(b, t[-1])); return
    sites = [(x, j, u) for x in bodies for j, u in calls(x) if callee(u)[0] == b.path]
    for x, j, u in sites:
        c.check(extguard(x, j), 'extension:%s' % x.path, '%s reads files without testing that they are schemas' % where(x, u[-1]), 'extension tests', where(x, u[-1]))
    if not sites: c.violation('extension:%s' % b.path, '%s reads a file without testing that it is a schema' % where(b, t[-1]))

def extguard(b, i):
    """block i is only reached when one of the tests of the name's end succeeds"""
    D = Defs(b)
    tests = {}
    for n, t in calls(b):
        if callee(t)[1] in ('ends_with', 'eq', 'is_some_and', 'eq_ignore_ascii_case', 'contains', 'any', 'is_match') and not t[3][1] and any((conststr(a) or [''])[0].strip('.').startswith('zs') for a in consts(b, D, t)): tests[t[3][0]] = True
    for n, (st, t, cl) in enumerate(b.blocks):       # tests kept in other variables
        for s in st:
            if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] in ('cp', 'mv') and s[2][1][1][0] in tests and not s[1][1]: tests[s[1][0]] = True
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        if n == i: return False
        t = b.blocks[n][1]
        if t[0] == 'switch' and t[1][0] in ('cp', 'mv') and t[1][1][0] in tests and not t[1][1][1]:
            todo += [m for v, m in t[2] if v == 0]
            continue
        todo += succs(t)
    return True

def consts(b, D, t):
    for o in t[2]:
        seen = set(); todo = [o]
        while todo:
            x = todo.pop()
            if x[0] == 'c': yield x
            elif x[0] in ('cp', 'mv') and x[1][0] not in seen:
                seen.add(x[1][0])
                for pr, k, rv, l in D.defs.get(x[1][0], []):
                    if k == 'rv' and rv[0] in ('use', 'ref', 'cast', 'agg'): todo += list(operands(rv))

CHECKS = {'C01': C01, 'C02': C02}
