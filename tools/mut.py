#!/usr/bin/env python3
"""Development aid: runs all rules against a copy of /repo with a patch applied.  usage: mut.py PATCH... [-- Cxx ...]"""
import os, sys, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
args = sys.argv[1:]
props = None
if '--' in args:
    i = args.index('--'); props = args[i + 1:]; args = args[:i]
if len(args) > 1:
    from concurrent.futures import ThreadPoolExecutor
    def one(a):
        return subprocess.run([sys.executable, __file__, a] + (['--'] + props if props else []), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
    with ThreadPoolExecutor(6) as ex:
        for a, o in zip(args, ex.map(one, args)):
            print('=== %s\n%s' % (a, o), flush=True)
    sys.exit()
patch = os.path.abspath(args[0])
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    r = os.path.join(d, 'repo')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    os.makedirs(r)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % r, shell=True)
    subprocess.check_call(['git', 'init', '-q'], cwd=r)
    x = subprocess.run(['git', 'apply', patch], cwd=r, text=True, stderr=subprocess.PIPE)
    if x.returncode:
        print('PATCH DOES NOT APPLY', x.stderr[:500]); sys.exit(3)
    if os.path.exists('/repo/Cargo.lock') and not os.path.exists(r + '/Cargo.lock'):
        shutil.copy('/repo/Cargo.lock', r)
    os.environ['PARCODE_REPO'] = r
    import facts, core, rules
    try:
        p = facts.extract('all')
    except facts.BuildError as x:
        print('BUILD', str(x)[-1500:]); sys.exit(3)
    if os.environ.get('KEEPFACTS'):
        shutil.copy(p, os.environ['KEEPFACTS'])
        if os.path.exists(p + '.inv'):
            shutil.copy(p + '.inv', os.environ['KEEPFACTS'] + '.inv')
    fx = facts.Facts(p)
    shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    kn = core.known()
    shared = {}
    for P in props or sorted(rules.TABLE):
        c = core.Ctx(P, fx=fx)
        t = time.time()
        try:
            rules.run(c, P)
        except core.Anchor as e:
            print(P, 'ANCHOR', e, 'undecided' if c.undecided or c.violations else 'NOTHING ELSE'); continue
        except facts.BuildError as e:
            print(P, 'BUILD', str(e)[-300:]); continue
        vs = {k: m for k, (m, _) in c.violations.items() if (P, k) not in kn}
        for k, m in list(vs.items())[:4]:
            print(P, 'VIOLATION', k, '|', m[:160])
        for u in c.undecided[:3]:
            print(P, 'undecided', u[:160])
        if time.time() - t > 60:
            print(P, 'slow', round(time.time() - t))
    print('done')
finally:
    shutil.rmtree(d, ignore_errors=True)
