"""Builds the compiler dump of /repo's current working tree (MIR, types, impls) with the rustc driver."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STARRY_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


def env():
    e = {k: v for k, v in os.environ.items()}
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.decode('utf8', 'replace').split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def tree_hash():
    h = hashlib.sha256()
    fs = [os.path.join(VERIF, 'driver', 'driver.rs')]
    for r, ds, ns in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        fs.extend(os.path.join(r, n) for n in sorted(ns))
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo/config.toml'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            fs.append(p)
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def driver(e):
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + key)
    if not os.path.exists(out):
        tmp = out + '.tmp'
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], env=e, capture_output=True,
                           text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit(2)
        os.rename(tmp, out)
    return out


def build(verbose=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(CACHE, f'dump-{key}.json')
        if os.path.exists(out):
            return out
        e = env()
        drv = driver(e)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True,
                                 text=True).stdout.strip()
        e['LD_LIBRARY_PATH'] = sysroot + '/lib'
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        tmp = out + '.tmp'
        e['STARRY_DUMP'] = tmp
        target = os.path.join(CACHE, 'target')
        e['CARGO_TARGET_DIR'] = target
        tries = []
        inst = sorted(glob.glob(os.path.join(REPO, 'target/debug/build/openssl-sys-*/out/openssl-build/install')) +
                      glob.glob('/repo/target/debug/build/openssl-sys-*/out/openssl-build/install'))
        inst = [i for i in inst if glob.glob(i + '/lib*/libcrypto.a')]
        keep = os.path.join(CACHE, 'openssl')
        if os.path.isdir(keep):
            inst = [keep]
        elif inst:
            shutil.copytree(inst[0], keep, symlinks=True)
            inst = [keep]
        if inst:
            tries.append({'OPENSSL_NO_VENDOR': '1', 'OPENSSL_STATIC': '1', 'OPENSSL_DIR': inst[0]})
        tries.append({})
        err = ''
        for extra in tries:
            # cargo must compile the crate again: forget its fingerprints (the layout differs between cargo versions)
            for d in (glob.glob(os.path.join(target, 'debug/.fingerprint/starry-*')) + glob.glob(os.path.join(target, 'debug/build/starry')) +
                      glob.glob(os.path.join(target, 'debug/build/starry-*'))):
                shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(tmp):
                os.remove(tmp)
            r = subprocess.run(['cargo', 'check', '--lib', '--offline'], cwd=REPO, env={**e, **extra},
                               capture_output=True, text=True)
            err = r.stderr
            if verbose:
                sys.stderr.write(r.stderr[-2000:])
            if r.returncode == 0 and os.path.exists(tmp):
                os.rename(tmp, out)
                for old in sorted(glob.glob(os.path.join(CACHE, 'dump-*.json')), key=os.path.getmtime)[:-3]:
                    if old != out:
                        os.remove(old)
                return out
            if 'could not compile `starry`' in err:
                break
        sys.stderr.write('cargo check of the tree under analysis failed:\n' + err[-4000:])
        raise SystemExit(2)


if __name__ == '__main__':
    print(build(True))
