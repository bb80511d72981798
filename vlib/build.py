"""Keeps a work copy of /repo, and builds from it what the checks need: the MIR of the contracts and the replay program.

setup:   python3-vt -m vlib.build setup
"""
import os, sys, subprocess, hashlib, shutil, fcntl, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
N = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu'
STABLE = '1.79.0-x86_64-unknown-linux-gnu'
CRATES = ['pool', 'backstop', 'emitter', 'pool_factory']
WASM_OF = {'emitter': 'emitter', 'pool-factory': 'pool_factory', 'backstop': 'backstop'}


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, log=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update({'HOME': '/root', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'PATH': '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
              'RUSTUP_TOOLCHAIN': STABLE})
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd[:4]), r.stdout[-4000:]))
    return r.stdout


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


SKIP = {'.git', 'target', 'node_modules', 'audits', 'test_snapshots'}


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in SKIP]
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            out[os.path.relpath(p, root)] = p
    return out


def sync():
    """make WORK/repo equal to /repo's working tree; files that are the same are left alone (so cargo sees no change)"""
    dst = os.path.join(WORK, 'repo')
    os.makedirs(dst, exist_ok=True)
    a, b = listing(REPO), listing(dst)
    changed = []
    for r, p in a.items():
        q = os.path.join(dst, r)
        if r in b and os.path.getsize(p) == os.path.getsize(q) and digest(p) == digest(q):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if os.path.exists(q): os.unlink(q)
        shutil.copyfile(p, q)
        changed.append(r)
    for r in b:
        if r not in a and not r.endswith('Cargo.lock'):
            os.unlink(b[r])
            changed.append(r)
    return changed


def srchash():
    """of everything that the MIR and the replay program depend on"""
    h = hashlib.sha256()
    for r, p in sorted(listing(REPO).items()):
        if r.startswith(('test-suites/', 'js', 'package')): continue
        if r.endswith(('.rs', '.toml', '.lock', '.wasm')):
            h.update(r.encode() + b'\0' + digest(p).encode() + b'\n')
    for f in ('driver/main.rs',):
        h.update(digest(os.path.join(VERIF, f)).encode())
    return h.hexdigest()


def driver():
    out = os.path.join(WORK, 'mirx')
    src = os.path.join(VERIF, 'driver/main.rs')
    st = os.path.join(WORK, 'mirx.sha')
    h = digest(src)
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h: return out
    sh([N + '/bin/rustc', '--edition', '2021', '-O', '-C', 'link-arg=-Wl,-rpath,%s/lib' % N, src, '-o', out])
    open(st, 'w').write(h)
    return out


def ethnum():
    """a dependency that this nightly rejects (size of a transmute); the copy differs in that one expression"""
    dst = os.path.join(WORK, 'ethnum')
    if os.path.exists(dst + '/Cargo.toml'): return dst
    reg = '/root/.cargo/registry/src'
    src = next(os.path.join(reg, d, 'ethnum-1.5.0') for d in os.listdir(reg) if os.path.exists(os.path.join(reg, d, 'ethnum-1.5.0')))
    shutil.copytree(src, dst)
    f = dst + '/src/error.rs'
    s = open(f).read()
    assert 'mem::transmute(())' in s
    open(f, 'w').write(s.replace('mem::transmute(())', 'mem::transmute(0u8)'))
    return dst


def wasm(force=False):
    """the contracts whose interface other contracts import"""
    d = os.path.join(WORK, 'repo')
    rel = d + '/target/wasm32-unknown-unknown/release'
    for pkg in ('emitter', 'pool-factory', 'backstop'):
        if not force and os.path.exists('%s/%s.wasm' % (rel, WASM_OF[pkg])): continue
        sh(['cargo', 'rustc', '--manifest-path=%s/Cargo.toml' % pkg, '--crate-type=cdylib', '--target=wasm32-unknown-unknown', '--release', '--offline'],
           cwd=d, env={'CARGO_INCREMENTAL': '0'})


def mir():
    out = os.path.join(WORK, 'mir')
    os.makedirs(out, exist_ok=True)
    h = srchash()
    st = os.path.join(WORK, 'mir.sha')
    if os.path.exists(st) and open(st).read() == h and all(os.path.exists('%s/%s.json' % (out, c)) for c in CRATES):
        return out
    if os.path.exists(st): os.unlink(st)
    d = os.path.join(WORK, 'repo')
    drv, eth = driver(), ethnum()
    w2 = os.path.join(WORK, 'repo-n')     # the nightly run patches a dependency: keep its lock file apart
    env = {'CARGO_TARGET_DIR': os.path.join(WORK, 'tgt-mir'), 'RUSTC': N + '/bin/rustc', 'RUSTC_WORKSPACE_WRAPPER': drv, 'MIRX_OUT': out,
           'MIRX_CRATES': ','.join(CRATES), 'RUSTFLAGS': '--cfg curve25519_dalek_backend="serial" -Zalways-encode-mir -Coverflow-checks=on'}
    cmd = ['cargo', 'check', '--offline', '--config', 'patch.crates-io.ethnum.path="%s"' % eth, '-p', 'pool', '-p', 'backstop', '-p', 'emitter', '-p', 'pool-factory']
    dh, ds = digest(os.path.join(VERIF, 'driver/main.rs')), os.path.join(WORK, 'mir.drv')
    if not os.path.exists(ds) or open(ds).read() != dh:        # what another extractor left
        for f in os.listdir(out): os.unlink(os.path.join(out, f))
        open(ds, 'w').write(dh)
    def missing(): return [c for c in CRATES if not os.path.exists('%s/%s.json' % (out, c))]
    lock = os.path.join(d, 'Cargo.lock')
    try:
        try:
            sh(cmd, env=env, cwd=d)
        except BuildError:
            wasm(force=True)          # an imported interface may have changed
            sh(cmd, env=env, cwd=d)
        if missing():
            for c in missing():
                f = '%s/%s/src/lib.rs' % (d, c.replace('_', '-'))
                os.utime(f)
            sh(cmd, env=env, cwd=d)
        if missing(): raise BuildError('no MIR for %s' % missing())
    finally:
        shutil.copyfile(REPO + '/Cargo.lock', lock)
    open(st, 'w').write(h)
    return out


def replay_bin():
    """the replay program, built from the current tree"""
    h = srchash() + digest(VERIF + '/replay/src/main.rs') + digest(VERIF + '/replay/Cargo.toml')
    st = os.path.join(WORK, 'replay.sha')
    tgt = os.path.join(WORK, 'tgt-replay')
    b = tgt + '/debug/replay'
    if os.path.exists(st) and open(st).read() == h and os.path.exists(b): return b
    crate = os.path.join(WORK, 'replay')
    os.makedirs(crate + '/src', exist_ok=True)
    for f in ('Cargo.toml', 'src/main.rs'):
        s = open(VERIF + '/replay/' + f).read().replace('../.work/repo/', WORK + '/repo/')
        q = crate + '/' + f
        if not os.path.exists(q) or open(q).read() != s: open(q, 'w').write(s)
    lk = crate + '/Cargo.lock'
    if not os.path.exists(lk): shutil.copyfile(REPO + '/Cargo.lock', lk)
    try:
        sh(['cargo', 'build', '--offline'], cwd=crate, env={'CARGO_TARGET_DIR': tgt})
    except BuildError:
        wasm(force=True)
        shutil.copyfile(REPO + '/Cargo.lock', lk)
        sh(['cargo', 'build', '--offline'], cwd=crate, env={'CARGO_TARGET_DIR': tgt})
    open(st, 'w').write(h)
    return b


def replay_fresh():
    h = srchash() + digest(VERIF + '/replay/src/main.rs') + digest(VERIF + '/replay/Cargo.toml')
    st = os.path.join(WORK, 'replay.sha')
    return os.path.exists(st) and open(st).read() == h


class Lock:
    def __enter__(s):
        os.makedirs(WORK, exist_ok=True)
        s.f = open(WORK + '/lock', 'w')
        fcntl.flock(s.f, fcntl.LOCK_EX)

    def __exit__(s, *a):
        s.f.close()


def prepare():
    with Lock():
        sync()
        driver()
        wasm()
        return mir()


def prepare_replay():
    with Lock():
        sync()
        wasm()
        return replay_bin()


if __name__ == '__main__':
    t = time.time()
    print('mir', prepare(), round(time.time() - t, 1))
    if 'setup' in sys.argv:
        print('replay', prepare_replay(), round(time.time() - t, 1))
