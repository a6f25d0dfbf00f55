"""Extracts facts about /repo's current source with the nightly compiler (type checking and MIR only, nothing is run)."""
import fcntl, json, os, subprocess, sys, shutil, time, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PARCODE_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'

class BuildError(Exception):
    pass

def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()

def driver():
    """Builds the fact extractor when it is missing or older than its source."""
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'driver')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return out
        tmp = out + '.%d' % os.getpid()
        subprocess.check_call(['rustc', '+nightly', '-O', '--edition', '2024', src, '-o', tmp])
        os.replace(tmp, out)
        open(stamp, 'w').write(key)
    return out

def cargo_env(target):
    env = dict(os.environ)
    for k in ('SA_EXTRA', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0')
    return env

def probe_dir(work):
    """A copy of the probe crate pointing at REPO (cargo wants to write next to Cargo.toml)."""
    dst = os.path.join(work, 'probe')
    shutil.copytree(os.path.join(VERIF, 'probe'), dst, ignore=shutil.ignore_patterns('target'))
    ct = os.path.join(dst, 'Cargo.toml')
    s = open(ct).read().replace('/repo', REPO)
    open(ct, 'w').write(s)
    return dst

def extract(features='all', work=None, keep=False):
    """Returns the path of a fact file for the given feature selection."""
    drv = driver()
    own = work is None
    work = work or os.path.join(BUILD, 'w.%d.%s' % (os.getpid(), hashlib.md5(str(features).encode()).hexdigest()[:6]))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    out = os.path.join(work, 'facts.jsonl')
    pd = probe_dir(work)
    env = cargo_env(os.path.join(work, 'tgt'))
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', SA_FACTS=out, RUSTC_WRAPPER=drv,
               RUSTFLAGS='-Zalways-encode-mir -Zno-steal-thir -Zmir-opt-level=0 -Coverflow-checks=on')
    if isinstance(features, tuple):           # (features, extra compiler arguments for the library and the probe)
        env['SA_EXTRA'] = features[1]
        fl = features[0]
    else:
        fl = features
    args = ['cargo', 'check', '--offline', '--quiet']
    if fl == 'all':
        args += ['--all-features']
    elif fl == 'default':
        pass
    else:
        args += ['--no-default-features'] + (['--features', fl] if fl else [])
    r = subprocess.run(args, cwd=pd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        tail = r.stdout[-4000:]
        shutil.rmtree(work, ignore_errors=True)
        raise BuildError('the probe crate does not build against %s (features %s):\n%s' % (REPO, fl, tail))
    shutil.rmtree(os.path.join(work, 'tgt'), ignore_errors=True)
    return out

class Facts:
    def __init__(self, path):
        self.token = object()
        self.F, self.T, self.V, self.other = {}, {}, [], []
        for l in open(path):
            r = json.loads(l)
            if 's' in r and 'ty' in r:
                self.T[r['ty']] = r
            elif 'bbs' in r:
                self.F[r['inst']] = r
            elif 'vtable' in r:
                self.V.append(r)
            else:
                self.other.append(r)
        self.inv = [json.loads(l) for l in open(path + '.inv')] if os.path.exists(path + '.inv') else []
        self.byp = {}
        for b in self.F.values():
            self.byp.setdefault(b['p'], []).append(b)

if __name__ == '__main__':
    t = time.time()
    p = extract(sys.argv[1] if len(sys.argv) > 1 else 'all')
    print(p, round(time.time() - t, 1), 's')
