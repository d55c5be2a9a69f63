"""Builds the extractor, runs it over /repo's current tree and returns the path of the database.

The result is cached under /verif/build by a hash of everything it depends on (all sources and manifests of /repo, the
extractor, the probe crate, the compiler), so that a check always describes the current working tree."""
import hashlib, os, subprocess, shutil, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            if f.endswith('.rs') or f == 'Cargo.toml' or f.endswith('.md'):
                out.append(os.path.join(root, f))
    return out

def digest(paths, extra=''):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    h.update(extra.encode())
    return h.hexdigest()[:24]

def extract(log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract(log)

def _extract(log):
    ver = sh(['rustc', '+nightly', '-vV']).stdout
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    dsrc = os.path.join(VERIF, 'driver', 'main.rs')
    dh = digest([dsrc], ver)
    drv = os.path.join(BUILD, 'fxdriver-' + dh)
    if not os.path.exists(drv):
        for f in os.listdir(BUILD):
            if f.startswith('fxdriver-'): os.unlink(os.path.join(BUILD, f))
        r = sh(['rustc', '+nightly', '-O', '--edition', '2021', dsrc, '-o', drv + '.tmp'])
        if r.returncode != 0:
            log.write(r.stdout); raise SystemExit(2)
        os.rename(drv + '.tmp', drv)
    probe = os.path.join(VERIF, 'probe')
    srcs = source_files()
    h = digest(srcs + [os.path.join(probe, 'Cargo.toml'), os.path.join(probe, 'src', 'lib.rs')], dh)
    db = os.path.join(BUILD, 'db-%s.jsonl' % h)
    if os.path.exists(db):
        return db, len(srcs), True
    for f in os.listdir(BUILD):
        if f.startswith('db-'): os.unlink(os.path.join(BUILD, f))
    tgt = os.path.join(BUILD, 'target')
    shutil.rmtree(tgt, ignore_errors=True)
    work = os.path.join(BUILD, 'probe')
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(probe, work, ignore=shutil.ignore_patterns('target'))
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv,
               FX_OUT=db + '.tmp', FX_CRATE='fxprobe', CARGO_NET_OFFLINE='true',
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off --cap-lints=allow')
    for v in ('CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        env.pop(v, None)
    r = sh(['cargo', '+nightly', 'check', '--offline', '--quiet'], cwd=work, env=env)
    shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(db + '.tmp'):
        log.write('extraction failed: /repo does not build\n' + r.stdout[-4000:])
        raise SystemExit(2)
    os.rename(db + '.tmp', db)
    return db, len(srcs), False

if __name__ == '__main__':
    t = time.time()
    p, n, c = extract()
    print(p, '%d source files, %s, %.1f s' % (n, 'cached' if c else 'extracted', time.time() - t))
