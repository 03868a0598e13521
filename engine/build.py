"""Builds the compiler driver and extracts facts from /repo's current working tree.

Results are cached under /verif/.cache, keyed by the content of everything that goes in; a missing cache only costs time."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')

class BuildError(Exception):
    def __init__(self, stage, log): self.stage, self.log = stage, log; Exception.__init__(self, stage)

def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def _files(d, skip=('target', '.git')):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(r, f) for f in fs if os.path.isfile(os.path.join(r, f))]
    return out

def run(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    with open(log, 'w') as f: f.write(p.stdout)
    return p.returncode, p.stdout

def base_env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'
    e.setdefault('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''): e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e

def driver():
    src = os.path.join(ROOT, 'mirdump/main.rs')
    out = os.path.join(CACHE, 'mirdump-' + _hash([src]))
    sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=base_env(), text=True).strip()
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, log = run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], ROOT, base_env(), os.path.join(CACHE, 'driver.log'))
        if rc: raise BuildError('driver', log)
        os.rename(tmp, out)
    return out, sysroot + '/lib'

RT_CARGO = '''[package]
name = "rtprobe"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
zserio = { path = "%s/crates/zserio" }
'''
CORPUS_CARGO = '''[package]
name = "corpus"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bitmask-enum = "2.2.4"
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
zserio = { path = "%s/crates/zserio" }
zserio-rs-build = { path = "%s/crates/zserio-rs-build" }
clap = { version = "4.2.7", features = ["derive"] }
log = "0.4.22"
[dependencies.simple_logger]
version = "5.0.0"
default-features = false
features = ["colors", "stderr"]
[[bin]]
name = "genmain"
path = "genmain/main.rs"
[build-dependencies]
zserio-rs-build = { path = "%s/crates/zserio-rs-build" }
'''
CORPUS_BUILD = '''use zserio_rs_build::{generate_model, Model};
fn main() {
    println!("cargo:rerun-if-changed=schemas");
    let mut m = Model::from_filesystem(std::path::Path::new("schemas"));
    m.evaluate();
    generate_model(&mut m, std::path::Path::new("src"), "");
}
'''

def schema_dirs():
    """the schemas the generated code is analysed for: (source dir, name in the corpus)"""
    return [(os.path.join(REPO, 'tests/reference_modules'), 'reference_modules'), (os.path.join(ROOT, 'corpus/schemas'), 'vcorpus')]

def inputs(kind):
    fs = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')]
    fs += _files(os.path.join(REPO, 'crates/zserio'))
    if kind != 'rt':
        fs += _files(os.path.join(REPO, 'crates/zserio-rs-build'))
        for d, _ in schema_dirs():
            if os.path.isdir(d): fs += _files(d)
    fs += [os.path.join(ROOT, 'mirdump/main.rs'), os.path.abspath(__file__)]
    return [f for f in fs if os.path.exists(f)]

def facts(kind):
    """kind: 'rt' (runtime crate), 'gen' (runtime + generated corpus + generator).  -> directory with the JSON facts"""
    os.makedirs(CACHE, exist_ok=True)
    key = _hash(inputs(kind))
    out = os.path.join(CACHE, '%s-%s' % (kind, key))
    with open(os.path.join(CACHE, 'lock-' + kind), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')): 
            os.utime(out)
            return out
        # keep the cache small
        olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(kind + '-')), key=os.path.getmtime)
        for d in olds[:-3]: shutil.rmtree(d, ignore_errors=True)
        work = os.path.join(CACHE, 'work-' + kind)
        shutil.rmtree(work, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
        os.makedirs(work + '/src'); os.makedirs(out)
        drv, lib = driver()
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), work)
        if kind == 'rt':
            open(work + '/Cargo.toml', 'w').write(RT_CARGO % REPO)
            open(work + '/src/lib.rs', 'w').write('pub use zserio;\n')
            crates = 'zserio'
        else:
            open(work + '/Cargo.toml', 'w').write(CORPUS_CARGO % (REPO, REPO, REPO))
            open(work + '/build.rs', 'w').write(CORPUS_BUILD)
            open(work + '/src/lib.rs', 'w').write('')
            for d, n in schema_dirs():
                if os.path.isdir(d):
                    for r, _, fs in os.walk(d):
                        for f in fs:
                            if f.endswith('.zs'):
                                rel = os.path.relpath(os.path.join(r, f), os.path.dirname(d) if n == 'reference_modules' else d)
                                if n == 'reference_modules': rel = os.path.relpath(os.path.join(r, f), d)
                                dst = os.path.join(work, 'schemas', rel)
                                os.makedirs(os.path.dirname(dst), exist_ok=True)
                                shutil.copy(os.path.join(r, f), dst)
            os.makedirs(work + '/genmain')
            shutil.copy(os.path.join(REPO, 'crates/zserio-rs-build/src/main.rs'), work + '/genmain/main.rs')
            crates = 'zserio,corpus,zserio_rs_build,genmain'
        e = base_env()
        e['LD_LIBRARY_PATH'] = lib + ':' + e.get('LD_LIBRARY_PATH', '')
        e['RUSTC_WRAPPER'] = drv; e['MIRDUMP_OUT'] = out; e['MIRDUMP_CRATES'] = crates
        rc, log = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', work + '/target'], work, e, os.path.join(out, 'build.log'))
        if rc:
            stage = 'generator' if 'custom build command' in log else 'compile'
            shutil.copytree(work + '/src', out + '/src', dirs_exist_ok=True)
            shutil.rmtree(work + '/target', ignore_errors=True)
            raise BuildError(stage, log)
        if kind != 'rt':
            shutil.copytree(work + '/src', out + '/src', dirs_exist_ok=True)
            shutil.copytree(work + '/schemas', out + '/schemas', dirs_exist_ok=True)
        shutil.rmtree(work, ignore_errors=True)
        open(os.path.join(out, 'done'), 'w').write('ok')
        return out

def prelude():
    """facts of engine/prelude: reference definitions of the standard library's internal iteration (fixed, independent of /repo)"""
    src = os.path.join(ROOT, 'engine/prelude')
    key = _hash([src + '/Cargo.toml', src + '/src/lib.rs', os.path.join(ROOT, 'mirdump/main.rs')])
    out = os.path.join(CACHE, 'prelude-' + key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock-prelude'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')): return out
        for d in os.listdir(CACHE):
            if d.startswith('prelude-'): shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out)
        drv, lib = driver()
        work = os.path.join(CACHE, 'work-prelude')
        shutil.rmtree(work, ignore_errors=True); shutil.copytree(src, work)
        e = base_env()
        e['LD_LIBRARY_PATH'] = lib + ':' + e.get('LD_LIBRARY_PATH', '')
        e['RUSTC_WRAPPER'] = drv; e['MIRDUMP_OUT'] = out; e['MIRDUMP_CRATES'] = 'vprelude'
        rc, log = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', work + '/target'], work, e, os.path.join(out, 'build.log'))
        shutil.rmtree(work, ignore_errors=True)
        if rc: raise BuildError('prelude', log)
        open(os.path.join(out, 'done'), 'w').write('ok')
        return out

def load(kind, crates=None):
    from .facts import Facts
    d = facts(kind)
    names = crates or {'rt': ['zserio'], 'gen': ['zserio', 'corpus'], 'all': ['zserio', 'corpus', 'zserio_rs_build', 'genmain']}[kind]
    F = Facts([os.path.join(d, n + '.json') for n in names] + [os.path.join(prelude(), 'vprelude.json')])
    F.dir = d
    return F
