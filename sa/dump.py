"""Builds the THIR driver (once) and dumps /repo's current tree; nothing of /repo is executed."""
import hashlib, json, os, shutil, subprocess, sys, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
CRATE = 'bulletproofs_amcl'


class AnalysisError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def _hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def sysroot():
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=_env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('no nightly toolchain: ' + r.stderr)
    return r.stdout.strip()


def build_driver():
    d = os.path.join(VERIF, 'driver')
    h = _hash_files([d + '/Cargo.toml', d + '/src/main.rs'])
    out = os.path.join(CACHE, 'driver')
    stamp = os.path.join(out, 'stamp')
    binp = os.path.join(out, 'debug', 'thirdump')
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
        return binp
    os.makedirs(out, exist_ok=True)
    e = _env()
    e['CARGO_TARGET_DIR'] = out
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=d, env=e,
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('driver build failed:\n' + r.stderr[-4000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return binp


def source_files():
    fs = []
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            fs.append(os.path.join(root, f))
    fs.append(os.path.join(REPO, 'Cargo.toml'))
    return fs


def get_dump():
    """returns (dump dict, info)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp = build_driver()
        with open(binp, 'rb') as f:
            bh = hashlib.sha256(f.read()).hexdigest()
        h = _hash_files(source_files(), bh)[:24]
        ddir = os.path.join(CACHE, 'dump')
        path = os.path.join(ddir, h + '.json')
        if not os.path.exists(path):
            lock = os.path.join(REPO, 'Cargo.lock')
            if not os.path.exists(lock):
                for c in ('/opt/vp/Cargo.lock.saved', os.path.join(VERIF, 'Cargo.lock.repo')):
                    if os.path.exists(c):
                        shutil.copyfile(c, lock)
                        break
            os.makedirs(ddir, exist_ok=True)
            tmp = os.path.join(ddir, 'tmp.%d' % os.getpid())
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            tgt = os.path.join(CACHE, 'target')
            for g in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', CRATE + '-*')):
                shutil.rmtree(g, ignore_errors=True)
            e = _env()
            e.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=binp,
                     THIRDUMP_OUT=tmp, THIRDUMP_CRATE=CRATE, CARGO_TARGET_DIR=tgt)
            r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--quiet'],
                               cwd=REPO, env=e, capture_output=True, text=True)
            f = os.path.join(tmp, CRATE + '.json')
            if not os.path.exists(f):
                raise AnalysisError('the crate could not be type-checked:\n' + r.stderr[-3000:])
            os.replace(f, path)
            shutil.rmtree(tmp, ignore_errors=True)
            old = sorted(glob.glob(ddir + '/*.json'), key=os.path.getmtime)[:-6]
            for o in old:
                os.remove(o)
        else:
            os.utime(path)
        with open(path) as f:
            d = json.load(f)
    return d, {'tree_hash': h, 'dump': path}


if __name__ == '__main__':
    d, i = get_dump()
    print(i, len(d['bodies']))
