"""Builds the MIR dumper and (with the nightly toolchain, offline) the metadata of the dependencies, then
dumps the type-checked MIR of /repo's current working tree.  The dump is redone on every run: nothing but the
driver binary and the dependency metadata is reused."""
import os, subprocess, sys, glob, hashlib, fcntl, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
ENV = dict(os.environ)
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(k, None)
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')
ENV['CARGO_NET_OFFLINE'] = 'true'

class BuildError(Exception):
    pass

def _run(cmd, cwd, env=None, timeout=800):
    e = dict(ENV)
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def _tree_hash(d):
    h = hashlib.sha256()
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode()); h.update(b'\0')
            h.update(open(p, 'rb').read())
    return h.hexdigest()

def sysroot():
    return _run(['rustc', '+nightly', '--print', 'sysroot'], '/').strip()

def ensure_tools():
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = _tree_hash(os.path.join(VERIF, 'tools'))
        st = os.path.join(WORK, 'tools.key')
        drv = os.path.join(WORK, 'driver/debug/mirdump')
        if not (os.path.exists(st) and open(st).read() == key and os.path.exists(drv)):
            _run(['cargo', '+nightly', 'build', '--offline'], os.path.join(VERIF, 'tools/driver'), {'CARGO_TARGET_DIR': os.path.join(WORK, 'driver')})
            _run(['cargo', '+nightly', 'check', '--offline', '--locked'], os.path.join(VERIF, 'tools/deps'), {'CARGO_TARGET_DIR': os.path.join(WORK, 'deps')})
            open(st, 'w').write(key)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    return drv

DEPS = ['hex', 'num_bigint', 'rand', 'rand_chacha', 'rand_core', 'sha2', 'sha3']

def dump(profile='debug', out=None, repo=None, root='src/lib.rs', extra=()):
    """Run the dumper over REPO/<root> and return the path of the dump."""
    repo = repo or REPO
    drv = ensure_tools()
    out = out or os.path.join(WORK, 'dump-%s-%d.jsonl' % (profile, os.getpid()))
    ext = []
    d = os.path.join(WORK, 'deps/debug')
    metas = glob.glob(d + '/build/*/*/out/*.rmeta') + glob.glob(d + '/deps/*.rmeta')
    for c in DEPS:
        fs = [m for m in metas if os.path.basename(m).startswith('lib%s-' % c)]
        if not fs: raise BuildError('dependency metadata of %s missing' % c)
        ext += ['--extern', '%s=%s' % (c, fs[0])]
    for x in sorted(set(os.path.dirname(m) for m in metas)):
        ext += ['-L', 'dependency=' + x]
    od = os.path.join(WORK, 'out-%d' % os.getpid()); os.makedirs(od, exist_ok=True)
    dbg = ['-Cdebug-assertions=on', '-Coverflow-checks=on'] if profile == 'debug' else ['-Cdebug-assertions=off', '-Coverflow-checks=off']
    try:
        _run([drv, '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'festa_rs', root] + ext +
             ['-Zmir-opt-level=0', '--emit=metadata', '--out-dir', od, '--cap-lints', 'allow'] + dbg + list(extra), repo,
             {'MIRDUMP_OUT': out, 'LD_LIBRARY_PATH': sysroot() + '/lib'})
    finally:
        for f in glob.glob(od + '/*'): os.unlink(f)
        os.rmdir(od)
    return out
