"""Builds the MIR dump of /repo's current source (cached by the hash of the source)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POVERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def source_files(repo):
    out = []
    for top in ('src',):
        for d, dn, fn in os.walk(os.path.join(repo, top)):
            dn.sort()
            for f in sorted(fn):
                out.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'build.rs', 'Cargo.lock'):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            out.append(p)
    return out


def source_hash(repo):
    h = hashlib.sha256()
    for f in source_files(repo) + [os.path.join(VERIF, 'driver', 'main.rs')]:
        h.update(os.path.relpath(f, repo).encode())
        with open(f, 'rb') as fh:
            h.update(b'\0' + fh.read() + b'\0')
    return h.hexdigest()[:24]


def toolchain():
    r = _run(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise BuildError('no nightly toolchain: ' + r.stdout)
    return r.stdout.strip()


def build_driver(sysroot):
    src = os.path.join(VERIF, 'driver', 'main.rs')
    with open(src, 'rb') as fh:
        h = hashlib.sha256(fh.read() + sysroot.encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'driver-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        r = _run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], cwd=BUILD)
        if r.returncode:
            raise BuildError('the driver does not build:\n' + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


def ensure(repo=None):
    """Returns (dump, path of the generated formula parser, hash of the source)."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        made_lock = False
        if not os.path.exists(os.path.join(repo, 'Cargo.lock')) and os.path.exists('/opt/vp/lock/Cargo.lock'):
            shutil.copy('/opt/vp/lock/Cargo.lock', os.path.join(repo, 'Cargo.lock'))
        h = source_hash(repo)
        out = os.path.join(BUILD, 'dump-%s.json' % h)
        gen = os.path.join(BUILD, 'formula-%s.rs' % h)
        if not all(os.path.exists(f) for f in (out, gen, os.path.join(BUILD, 'libporeader-%s.rmeta' % h))):
            sysroot = toolchain()
            exe = build_driver(sysroot)
            target = os.path.join(BUILD, 'target')
            # what cargo remembers of this crate is forgotten: freshness goes by modification time, and a
            # fresh crate would not be given to the driver
            for sub in ('build', '.fingerprint', 'incremental'):
                d = os.path.join(target, 'debug', sub)
                if os.path.isdir(d):
                    for e in os.listdir(d):
                        if e.startswith('poreader'):
                            shutil.rmtree(os.path.join(d, e))
            env = dict(os.environ)
            for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
                env.pop(k, None)
            env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=target, POVERIF_OUT=out,
                       RUSTC_WORKSPACE_WRAPPER=exe, CARGO_INCREMENTAL='0', RUSTUP_TOOLCHAIN='nightly')
            r = _run(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path',
                      os.path.join(repo, 'Cargo.toml')], env=env, cwd=BUILD)
            if r.returncode or not os.path.exists(out):
                raise BuildError('cargo check failed:\n' + r.stdout[-6000:])
            found = []
            for d, _, fs in os.walk(os.path.join(target, 'debug', 'build')):
                if 'formula.rs' in fs and 'poreader' in d:
                    found.append(os.path.join(d, 'formula.rs'))
            if len(found) != 1:
                raise BuildError('generated parser: %r' % (found,))
            shutil.copy(found[0], gen)
            meta = []
            for d, _, fs in os.walk(os.path.join(target, 'debug')):
                meta += [os.path.join(d, f) for f in fs if f.startswith('libporeader-') and f.endswith('.rmeta')]
            if len(meta) != 1:
                raise BuildError('metadata of the crate: %r' % (meta,))
            shutil.copy(meta[0], os.path.join(BUILD, 'libporeader-%s.rmeta' % h))
    with open(out) as fh:
        d = json.load(fh)
    return d, gen, h


def library_dirs():
    out = set()
    for d, _, fs in os.walk(os.path.join(BUILD, 'target', 'debug')):
        if any(f.endswith(('.rmeta', '.rlib', '.so')) for f in fs):
            out.add(d)
    return sorted(out)


if __name__ == '__main__':
    d, gen, h = ensure()
    print('functions: %d, types: %d, source %s' % (len(d['instances']), len(d['types']), h))
