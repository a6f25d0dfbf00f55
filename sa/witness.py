"""Client programs that are type checked against /repo's current source; nothing is run."""
import json, os, re, shutil, subprocess
import facts as F

def check(programs, features='all', toolchain=None):
    """programs: {name: source of a binary}.  -> {name: None if it compiles, else [error codes]} """
    work = os.path.join(F.BUILD, 'c.%d' % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    try:
        dst = os.path.join(work, 'client')
        shutil.copytree(os.path.join(F.VERIF, 'client'), dst, ignore=shutil.ignore_patterns('target'))
        ct = os.path.join(dst, 'Cargo.toml')
        s = open(ct).read().replace('/repo', F.REPO)
        open(ct, 'w').write(s)
        os.makedirs(os.path.join(dst, 'src', 'bin'))
        for n, src in programs.items():
            open(os.path.join(dst, 'src', 'bin', n + '.rs'), 'w').write(src)
        env = F.cargo_env(os.path.join(work, 'tgt'))
        fl = ['--all-features'] if features == 'all' else [] if features == 'default' else ['--no-default-features'] + (['--features', features] if features else [])
        r = subprocess.run(['cargo', 'check', '--offline', '--lib'] + fl, cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise F.BuildError('the client crate does not build against %s:\n%s' % (F.REPO, r.stdout[-3000:]))
        r = subprocess.run(['cargo', 'check', '--offline', '--bins', '--keep-going', '--message-format=json'] + fl, cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        res = {}
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            t = m.get('target') or {}
            if 'bin' not in t.get('kind', ()):
                continue
            if m['reason'] == 'compiler-artifact':
                res.setdefault(t['name'], None)
            elif m['reason'] == 'compiler-message' and m['message']['level'] == 'error':
                c = (m['message'].get('code') or {}).get('code')
                if c:
                    res[t['name']] = (res.get(t['name']) or []) + [(c, m['message']['message'])]
        return {n: res.get(n, [('?', 'not checked')]) for n in programs}
    finally:
        shutil.rmtree(work, ignore_errors=True)
