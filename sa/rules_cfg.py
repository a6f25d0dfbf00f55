"""C24: every build configuration compiles in one whole implementation of each operation.

Every configuration is compiled to its own MIR facts.  The rules of the other properties, which state what an
operation does, are decided on each of them; a rule that fails in one configuration and holds in one that differs
from it only by parallel, mmap or the target class (or fails only without lz4_flex) is a difference between configurations."""
import json, os, re, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import facts as factsmod
import core
from core import Ctx, Anchor, known

WASM = '-Aexplicit-builtin-cfgs-in-flags --cfg target_arch="wasm32" --cfg target_family="wasm"'
FEATS = ('parallel', 'mmap', 'lz4_flex')

class Config:
    def __init__(self, feats, wasm=False):
        self.feats, self.wasm = frozenset(feats), wasm
        self.fl = ','.join(f for f in FEATS if f in self.feats)
        self.name = ('no files: ' if wasm else '') + (self.fl or 'no features')
    def key(self):
        return (self.feats, self.wasm)
    def spec(self):
        return (self.fl, WASM) if self.wasm else self.fl

def subsets():
    for n in range(8):
        yield [f for i, f in enumerate(FEATS) if n >> i & 1]

QUICK = [('C01',), ('C02', 'C04'), ('C03',), ('C05', 'C13', 'C10'), ('C06', 'C27'), ('C07', 'C08'), ('C09', 'C14', 'C15', 'C25'), ('C16', 'C20', 'C23'), ('C17',), ('C18', 'C19')]
THOROUGH = [('C11',), ('C12',), ('C21',), ('C26',)]

def configs(tier):
    out = [Config(f) for f in subsets()]
    out += [Config(f, True) for f in subsets() if tier == 'thorough' or f in ([], list(FEATS))]
    only = os.environ.get('C24_ONLY')         # development aid
    return [c for c in out if not only or c.name in only.split(';')]

def decide(args):
    """One group of rules on the facts of one configuration (in a process of its own)."""
    path, wasm, props, tier = args
    import rules
    sys.setrecursionlimit(100000)
    fx = factsmod.Facts(path)
    res = []
    for p in props:
        t = time.time()
        c = Ctx(p, 'quick', fx)
        c.part, c.nofiles = True, wasm
        stop = None
        try:
            rules.run(c, p)
        except Anchor as x:
            stop = 'missing: %s' % x
        except Exception as x:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            stop = 'analysis stopped early: %s %s' % (type(x).__name__, x)
        res.append(dict(prop=p, v={k: (m, str(d)[:6000]) for k, (m, d) in c.violations.items()}, u=list(c.undecided), stop=stop,
                        fns=sorted(c.analysed), ob=sum(c.rules.values()), unm=sum(c.unmodelled.values()), units=c.counts.get('units', 0), t=time.time() - t))
    return res

def build(cf):
    try:
        return cf, factsmod.extract(cf.spec()), None
    except factsmod.BuildError as x:
        return cf, None, str(x)

def first_error(text):
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if l.startswith('error'):
            at = next((x.strip()[4:] for x in ls[i:i + 4] if x.strip().startswith('-->')), '')
            return l + (' at ' + at if at else '')
    return ls[-1]

def alg(r):
    """Belongs to a compression algorithm that may be left out."""
    return 'lz4' in (r['fn'] + r.get('impl', '')).lower()

def on_files(r):
    s = r.get('args', '') + r.get('preds', '') + r.get('ret', '') + r.get('impl', '')
    return 'path::Path' in s or 'fs::File' in s or 'OsStr' in s

def operations(inv):
    return {r['fn']: r for r in inv if 'fn' in r and r.get('pub')}

def c24(ctx):
    factsmod.driver()
    cfs = configs(ctx.tier)
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(build, cfs))
    paths = {cf.key(): p for cf, p, e in built if p}
    try:
        full = Config(FEATS)
        if full.key() not in paths:
            raise factsmod.BuildError(next(e for cf, p, e in built if cf.key() == full.key()))
        for cf, p, e in built:
            ctx.ob('the configuration builds with every operation')
            if p is None:
                ctx.violate('%s: does not build' % cf.name, 'with %s the library and a client of its whole interface do not compile: %s' % (cf.name, first_error(e)), e)
        ctx.counts['configurations'] = len(paths)
        interface(ctx, built, full)
        behaviour(ctx, [cf for cf, p, e in built if p], paths)
    finally:
        for p in paths.values():
            shutil.rmtree(os.path.dirname(p), ignore_errors=True)

def interface(ctx, built, full):
    """Public operations do not come and go with a feature."""
    ops = {}
    for cf, p, e in built:
        if p:
            ops[cf.key()] = operations([json.loads(l) for l in open(p + '.inv')])
    base = ops[full.key()]
    for cf, p, e in built:
        if not p:
            continue
        have = ops[cf.key()]
        for fn, r in sorted(base.items()):
            if fn in have:
                ctx.ob('public operation present in every configuration')
                a, b = (r['args'], r['ret'], r['unsafe']), (have[fn]['args'], have[fn]['ret'], have[fn]['unsafe'])
                if a != b:
                    ctx.violate('%s: signature depends on the configuration' % fn, '%s takes (%s) and returns %s with %s, but takes (%s) and returns %s with all features' % (fn, b[0], b[1], cf.name, a[0], a[1]))
                continue
            if 'lz4_flex' not in cf.feats and alg(r):
                continue
            if cf.wasm and on_files(r):
                continue
            ctx.violate('%s: missing with %s' % (fn, cf.name), '%s (%s) exists with all features but not with %s' % (fn, r['sp'], cf.name))
        for fn, r in sorted(have.items()):
            if fn not in base:
                ctx.violate('%s: only with %s' % (fn, cf.name), '%s (%s) exists with %s but not with all features' % (fn, r['sp'], cf.name))

def behaviour(ctx, cfs, paths):
    groups = QUICK + (THOROUGH if ctx.tier == 'thorough' else [])
    tasks, who = [], []
    order = ['C03', 'C01', 'C12', 'C11', 'C17']
    for g in sorted(groups, key=lambda g: order.index(g[0]) if g[0] in order else 9):
        for cf in cfs:
            tasks.append((paths[cf.key()], cf.wasm, g, ctx.tier))
            who.append(cf)
    res = {}                      # (config, prop) -> result
    n = max(2, min(8, os.cpu_count() or 4))
    import multiprocessing as mp
    with ProcessPoolExecutor(n, mp_context=mp.get_context('fork'), max_tasks_per_child=None) as ex:
        for cf, rs in zip(who, ex.map(decide, tasks)):
            for r in rs:
                res[cf.key(), r['prop']] = r
        dependent(ctx, cfs, paths, ex)
    kn = known()
    for (k, p), r in sorted(res.items(), key=lambda kv: (kv[0][1], kv[0][0][1], sorted(kv[0][0][0]))):
        cf = Config(*k)
        ctx.ob('rules of %s' % p, r['ob'])
        ctx.count('rule runs')
        ctx.count('units', r['units'])
        ctx.analysed.update(r['fns'])
        if r['unm']:
            ctx.unmodelled[p] = ctx.unmodelled.get(p, 0) + r['unm']
        if r['stop']:
            ctx.undec('%s with %s: %s' % (p, cf.name, r['stop']))
        for u in r['u']:
            ctx.undec('%s with %s: %s' % (p, cf.name, u[:200]))
    for (k, p), r in sorted(res.items(), key=lambda kv: (kv[0][1], kv[0][0][1], sorted(kv[0][0][0]))):
        cf = Config(*k)
        for key, (msg, det) in sorted(r['v'].items()):
            if (p, key) in kn:
                continue
            for d in neighbours(cf):
                q = res.get((d.key(), p))
                if q is None or key in q['v'] or q['stop'] or any(u.startswith(key.split(':')[0]) for u in q['u']):
                    continue
                ctx.violate('%s %s' % (p, key), 'with %s, but not with %s: %s' % (cf.name, d.name, msg), det)
                break

NUM = re.compile(r'\b(k|phi\(|fid)\d+\b|(\((?:L|A|T|I)), \d+(?:, \d+)*')
TYK = ('ty', 'from', 'dt', 'self')

def canon(x, T):
    """A MIR body with type numbers replaced by type names and without positions."""
    if isinstance(x, dict):
        out = []
        for k, v in sorted(x.items()):
            if k in ('sp', 'inst', 'parent', 'upn', 'tree'):
                continue
            num = isinstance(v, int) and not isinstance(v, bool)
            if num and (k in TYK or (k == 't' and 'r' in x) or (k == 'to' and 'from' in x)):
                out.append((k, T[v]['s']))
            elif k in ('at', 'args') and isinstance(v, list) and v and isinstance(v[0], int):
                out.append((k, tuple(T[i]['s'] if i in T else i for i in v)))
            else:
                out.append((k, canon(v, T)))
        return tuple(out)
    if isinstance(x, list):
        if len(x) == 3 and x[0] == 'f' and isinstance(x[2], int):
            return ('f', x[1], T[x[2]]['s'])
        return tuple(canon(v, T) for v in x)
    return x

def ident(b, T):
    return (b['p'], T[b['self']]['s'] if b.get('self') is not None else '', tuple(T[a]['s'] if isinstance(a, int) and a in T else str(a) for a in b['args']))

def special(b, T):
    """Uses what only exists in some configurations: the thread pool, the mapping of a file, the source of a file's bytes."""
    text = str(canon(b['bbs'], T)) + ' '.join(T[l[0]]['s'] for l in b['locs'])
    return any(w in text for w in ('rayon', 'memmap2', 'DataSource', 'fs::File', 'lz4', 'Lz4'))

def digest(path):
    """Identity of every library body -> (hashes of its bodies, uses a configuration-dependent facility, callees)."""
    import hashlib
    fx = factsmod.Facts(path)
    T = fx.T
    out = {}
    for b in fx.F.values():
        if b['crate'] != 'parcode':
            continue
        h = hashlib.md5(str((canon(b['bbs'], T), tuple(T[l[0]]['s'] for l in b['locs']))).encode()).hexdigest()
        r = out.setdefault(ident(b, T), (set(), [False], set()))
        r[0].add(h)
        if special(b, T):
            r[1][0] = True
        for bb in b['bbs']:
            f = bb['t'].get('fn') if bb['t']['t'] == 'call' else None
            if f and f.get('rcrate', f.get('crate')) == 'parcode':
                r[2].add(f.get('rp') or f['p'])
    return out

def outcome_text(o):
    from core import sh, strip_sites
    out = ['ret ' + sh(strip_sites(o.ret), 20000)]
    out += sorted(('if ' + sh(strip_sites(c), 20000) for c in o.facts.conds()), key=lambda t: NUM.sub('_', t))
    def evs(ev):
        for x in ev:
            if x[0] == 'loop':
                out.append('loop %s' % sh(x[2], 20000))
                for c, e in x[3]:
                    out.append('alt ' + ' '.join(sh(q, 20000) for q in c))
                    evs(e)
                out.append('end')
            elif x[0] == 'call':
                out.append('call %s %s' % (x[2], ' '.join(sh(a, 20000) for a in x[4])))
            else:
                out.append(' '.join([x[0]] + [sh(a, 20000) for a in x[1:]]))
    evs(strip_sites(tuple(o.ev)))
    t = '\n'.join(out)
    names = {}
    return NUM.sub(lambda m: names.setdefault(m.group(0), '%s_%d' % (m.group(1) or m.group(2), len(names))), t)

def compare(args):
    """Outcomes of one function in two configurations."""
    import core
    a, b, fn = args
    res = []
    for path in (a, b):
        fx = factsmod.Facts(path)
        c = Ctx('C24', 'quick', fx)
        c.part = True
        rows = [r for r in fx.byp.get(fn, ()) if r['crate'] == 'parcode']
        if not rows:
            return fn, None, 'no body'
        outs = {}
        for r in rows:
            u = c.unit(r, ('traits', 'node', 'root'), keep=(r['m'],))
            if u is None:
                return fn, None, '; '.join(c.undecided)[:200]
            clear = all(core.resolved(o.ret) and not core.murky(o.ev, o.facts) for o in u.outs)
            outs[ident(r, fx.T)] = (clear, sorted(outcome_text(o) for o in u.outs))
        res.append(outs)
    x, y = res
    for k in sorted(set(x) & set(y)):
        if x[k][1] != y[k][1]:
            if not (x[k][0] and y[k][0]):
                return fn, None, 'not fully resolved'
            da = [t for t in x[k][1] if t not in y[k][1]]
            db = [t for t in y[k][1] if t not in x[k][1]]
            return fn, False, 'one configuration:\n%s\n\nthe other:\n%s' % ('\n\n'.join(da[:3]), '\n\n'.join(db[:3]))
    return fn, True, ''

def dependent(ctx, cfs, paths, ex):
    """Functions whose code depends on the configuration: their outcomes must not, unless they use a facility that is compiled out."""
    digs = dict(zip([cf.key() for cf in cfs], ex.map(digest, [paths[cf.key()] for cf in cfs])))
    tasks, seen = [], set()
    ctx.counts['bodies compared'] = sum(len(d) for d in digs.values())
    for cf in cfs:
        for d in neighbours(cf):
            pair = frozenset((cf.key(), d.key()))
            if d.key() not in digs or pair in seen:
                continue
            seen.add(pair)
            a, b = digs[cf.key()], digs[d.key()]
            names = {x[0] for x in a} & {x[0] for x in b}
            for k in sorted(set(a) & set(b)):
                if a[k][0] <= b[k][0] or b[k][0] <= a[k][0]:
                    continue
                fn = k[0].split('::{closure')[0]
                own = [q for q in set(a) | set(b) if q[0] == fn or q[0].startswith(fn + '::{')]
                gone = [c for q in own for D in (a, b) if q in D for c in D[q][2] if c.split('::{')[0] not in names]
                if gone or any(D[q][1][0] for q in own for D in (a, b) if q in D):
                    ctx.ob('alternative implementations decided by the rules')
                    ctx.counts.setdefault('configuration-dependent functions', 0)
                    ctx.notes.append(fn)
                    continue
                tasks.append((cf, d, (paths[cf.key()], paths[d.key()], fn)))
    todo = {}
    for cf, d, t in tasks:
        todo.setdefault(t, (cf, d))
    for (t, (cf, d)), (fn, same, why) in zip(todo.items(), ex.map(compare, list(todo))):
        ctx.ob('configuration-dependent code has the same outcomes')
        if same is None:
            ctx.undec('%s depends on the configuration (%s / %s): %s' % (fn, cf.name, d.name, why))
        elif not same:
            ctx.violate('%s: depends on the configuration' % fn, '%s does not do the same with %s and with %s' % (fn, cf.name, d.name), why)
    ctx.counts['configuration-dependent functions'] = len(set(ctx.notes)) + len({t[2] for t in todo})

def neighbours(cf):
    """Configurations that must behave the same: one of parallel, mmap, target class changed, or lz4_flex added."""
    out = [Config(cf.feats ^ {f}, cf.wasm) for f in ('parallel', 'mmap')] + [Config(cf.feats, not cf.wasm)]
    if 'lz4_flex' not in cf.feats:
        out.append(Config(cf.feats | {'lz4_flex'}, cf.wasm))
    return out
