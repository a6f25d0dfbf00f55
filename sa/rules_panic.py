"""C11, C12: no panic on file content, no unbounded allocation or recursion driven by it."""
import itertools, re
from core import *
from core import walk
import domain
from rules_write import judge, short
from rules_err import read_rows, opname, self_of, result_of, READ_TRAITS, public

NODE = 'parcode::reader::ChunkNode'
MAXLEN = (1 << 63) - 1
ROUNDS = 1 << 62          # no loop runs that often

# ---------------------------------------------------------------- what every chunk handle satisfies
def node_type(ctx):
    for i, t in (ctx.fx.T.items() if isinstance(ctx.fx.T, dict) else enumerate(ctx.fx.T)):
        if t.get('k') == 'adt' and t.get('def') == NODE:
            return i, t
    raise Anchor('no type ' + NODE)

def builders(ctx):
    """Functions that build or change a chunk handle field by field."""
    ti, t = node_type(ctx)
    same = {i for i, u in (ctx.fx.T.items() if isinstance(ctx.fx.T, dict) else enumerate(ctx.fx.T)) if u.get('k') == 'adt' and u.get('def') == NODE}
    out, writes = [], []
    for b in ctx.fx.F.values():
        for bb in b['bbs']:
            for s in bb['ss']:
                v = s.get('v') or {}
                if v.get('r') == 'agg' and v.get('k') == 'adt' and v.get('t') in same:
                    if b not in out:
                        out.append(b)
                p = s.get('p')
                if isinstance(p, list) and len(p) > 1 and isinstance(p[0], int):
                    ty = b['locs'][p[0]][0]
                    for e in p[1:]:
                        u = ctx.fx.T[ty]
                        if e == '*' and u.get('k') in ('ref', 'ptr'):
                            ty = u['t']
                        else:
                            if ty in same:
                                writes.append(b)
                            break
    return out, writes

def num_fields(ctx):
    _, t = node_type(ctx)
    r = []
    for i, (n, f) in enumerate(t['vs'][0]['f']):
        u = ctx.fx.T[f]
        if u.get('k') == 'uint':
            r.append((i, n, u['n']))
    return r

def templates(fields):
    """Candidate relations between the numeric fields: lists of (field, weight) and a constant, meaning sum + c <= 0."""
    ns = [n for _, n, _ in fields]
    for x, y in itertools.permutations(ns, 2):
        yield ((x, 1), (y, -1)), 0
    for x, c, y in itertools.permutations(ns, 3):
        for w in (1, 16):
            yield ((x, 1), (c, w), (y, -1)), 0
    for x in ns:
        yield ((x, 1),), -MAXLEN
    for x, c in itertools.permutations(ns, 2):
        for w in (1, 16):
            yield ((x, 1), (c, w)), -MAXLEN
    for a, b, x, y in itertools.permutations(ns, 4):
        if x < y:
            for w in (1, 16):
                yield ((a, 1), (b, w), (x, -1), (y, -1)), 0

def invariants(ctx):
    """Relations proved for every chunk handle: proved where handles are built, fields are private elsewhere."""
    if 'nodeinv' in ctx.cache:
        return ctx.cache['nodeinv']
    fields = num_fields(ctx)
    bs, ws = builders(ctx)
    cands = list(dict.fromkeys(templates(fields)))
    for b in ws:
        ctx.undec('%s changes the fields of a chunk handle' % b['p'])
        cands = []
    pos = {n: i for i, n, _ in fields}
    built = 0
    for b in bs:
        if b.get('tr') == 'core::clone::Clone':
            continue
        u = ctx.unit(b, (), keep=(b['m'],), split_paths=True)
        if u is None:
            cands = []
            continue
        for o in u.outs:
            for a in {s for s in subterms(o.ret) if s.op == 'agg' and str(s.a[0]).startswith(NODE)}:
                built += 1
                left = []
                for fs, c in cands:
                    d = I(c)
                    for n, w in fs:
                        d = add(d, scale(a.a[2][pos[n]], w))
                    if o.facts.leq0(d, 5):
                        left.append((fs, c))
                cands = left
    if not built:
        ctx.undec('no place that builds chunk handles was understood')
        cands = []
    ctx.count('proved relations between the fields of a chunk handle', len(cands))
    ctx.cache['nodeinv'] = cands
    return cands

def axioms_of(invs, names):
    """For domain.STRUCT_AX: the relations as axioms about the fields of any handle term."""
    tab = {}
    for fs, c in invs:
        for n, w in fs:
            tab.setdefault(n, []).append((fs, c))
    def ax(t):
        if t.op == 'k':
            return [sub_(t, I(ROUNDS))]
        if t.op != 'fld' or t.a[2] not in tab:
            return []
        N, var = t.a[0], t.a[1]
        r = []
        for fs, c in tab[t.a[2]]:
            d = I(c)
            for n, w in fs:
                d = add(d, scale(terms._fld(N, var, n), w))
            r.append(d)
        return r
    return ax

class with_axioms:
    def __init__(self, ctx):
        self.f = axioms_of(invariants(ctx), None)
    def __enter__(self):
        domain.STRUCT_AX.append(self.f)
    def __exit__(self, *a):
        domain.STRUCT_AX.remove(self.f)

# ---------------------------------------------------------------- proving one obligation
def phis_of(u, ts):
    return {s for t in ts for s in subterms(t) if s.op == 'phi' and s.a[0] in u.e.loops}

def step_ok(F, inv, m):
    return F.leq0(subst(inv, m), 4)

def loop_invariants(u, f, extra=()):
    """Linear relations that hold at the head of every round of the loops the facts mention."""
    ps = phis_of(u, list(f.q) + list(f.b) + list(extra))
    out = []
    for lid in sorted({p.a[0] for p in ps}):
        info = u.e.loops[lid]
        mine = [p for p in info['phis'] if info['phis'][p] is not None]
        n = max([len(info['phis'][p][1]) for p in mine] or [0])
        cands = []
        al = set()
        for d in list(f.q) + list(extra):
            for t in lparts(d)[1] if isinstance(d, Tm) and d.op in ('lin',) else ():
                if not any(s.op in ('phi', 'acc') and s.a[0] == lid for s in subterms(t)) and not contains(t, info['k']):
                    al.add(t)
        for p in mine:
            if p not in ps:
                continue
            for t in al:
                cands.append(sub_(p, t))
        for d in list(extra):
            cands.append(d)
        for c in dict.fromkeys(cands):
            if c.op == 'i':
                continue
            e0 = {p: info['phis'][p][0] for p in mine}
            e0[info['k']] = ZERO
            if any(v is None for v in e0.values()) or not info['entry_facts'].leq0(subst(c, e0), 4):
                continue
            ok = True
            for j in range(n):
                F = None
                m = {}
                for p in mine:
                    bk = info['phis'][p][1]
                    if j < len(bk):
                        F = bk[j][0]
                        m[p] = bk[j][1]
                if F is None:
                    ok = False
                    break
                g = F.copy()
                g.q[norm_ineq(c)] = True
                for d in out:
                    g.q[norm_ineq(d)] = True
                m[info['k']] = add(info['k'], ONE)
                if not step_ok(g, c, m):
                    ok = False
                    break
            if ok:
                out.append(c)
    return out

def impossible(f):
    """Do the facts contradict each other (after using facts like x == 0)?"""
    for rnd in range(3):
        for d in list(f.q):
            if f.leq0(sub_(ONE, d), 4):
                return True
        zero = {}
        for a, x in f.b.items():
            if a.op == 'eqz' and x and a.a[0].op not in ('i', 'lin'):
                zero[a.a[0]] = ZERO
        if not zero:
            return False
        bad = False
        for d in f.q:
            d2 = norm_ineq(subst(d, zero))
            if d2.op == 'i' and d2.a[0] > 0:
                bad = True
        if bad:
            return True
        f = f.subst(zero)
    return False

def proved(u, ob):
    """Is the obligation met on every path that reaches it?"""
    kind, sp, cond, val, f, ch = ob
    if f is None:
        return True
    f = f.copy()
    if not f.assume(cond, not val):
        return True
    extra = [cond.a[0] if val else sub_(ONE, cond.a[0])] if cond.op == 'le0' else []
    for d in loop_invariants(u, f, extra):
        f.q[norm_ineq(d)] = True
    return impossible(f)

# ---------------------------------------------------------------- private state of iterators
def own(t, S):
    """Is the term about the state before the call only?"""
    return any(s is S for s in subterms(t)) and all(s.op != 'p' or s is S.a[0] for s in subterms(t))

def unreachable(ctx, b, ob, units_of):
    """The state the obligation fails in is never reached: constructors do not make it and methods do not lead to it."""
    kind, sp, cond, val, f, ch = ob
    P = mk('p', b['locs'][1][1] or 'a0')
    S = mk('*', P)
    bad = [c for c in f.conds() if own(c, S)]
    if cond.op != 'i':
        bad.append(cond if not val else neg(cond))
        bad = [c for c in bad if own(c, S)]
    if not bad:
        return None
    ty = ctx.fx.T[ctx.fx.T[b['locs'][1][0]]['t']]['s'] if ctx.fx.T[b['locs'][1][0]].get('k') == 'ref' else None
    if ty is None:
        return None
    names = {}
    for c in bad:
        for s in subterms(c):
            if s.op == 'fld' and s.a[0] is S:
                names[s] = s.a[2]
    def excluded(F, val_of, v=None):
        m = {s: val_of(s) for s in names}
        if any(v is None for v in m.values()):
            return False
        g = F.copy()
        for c in bad:
            c2 = subst(c, m)
            if not g.assume(c2, True, 4):
                return True
        if v is not None:
            for d in loop_invariants(v, g, [sub_(ONE, c2.a[0]) for c2 in (subst(c, m) for c in bad) if c2.op == 'le0']):
                g.q[norm_ineq(d)] = True
        return impossible(g)
    made = 0
    for r in ctx.fx.F.values():
        if r.get('clos'):
            continue
        rt = ctx.fx.T[r['locs'][0][0]]['s']
        isctor = ty in rt and (self_of(ctx, r) == ty or r['crate'] == 'parcode' and r['p'].startswith(('parcode::reader::', 'parcode::rt::')) and r.get('self') is not None)
        isself = self_of(ctx, r) == ty and public(ctx, r) and r['argc'] and ctx.fx.T[r['locs'][1][0]].get('k') == 'ref' and ctx.fx.T[r['locs'][1][0]].get('mut')
        if not isctor and not isself:
            continue
        u = units_of(r)
        if u is None:
            return None
        for o in u.outs:
            if isctor:
                for a in {s for s in subterms(o.ret) if s.op == 'agg' and str(s.a[0]).startswith(ty.split('<')[0])}:
                    made += 1
                    if not excluded(o.facts, lambda s, a=a: terms._fld(a, s.a[1], s.a[2])):
                        return False
            if isself:
                Q = mk('p', r['locs'][1][1] or 'a0')
                post = o.st.m.get(('S', Q))
                if post is None:
                    continue
                T = mk('*', Q)
                # the bad state did not hold before
                g = o.facts.copy()
                pre = [subst(c, {S: T}) for c in bad]
                if len(pre) == 1:
                    if not g.assume(pre[0], False, 4):
                        continue
                elif all(g.implies(c, 4) is True for c in pre):
                    continue
                if not excluded(g, lambda s, post=post: terms._fld(post, s.a[1], s.a[2]), u):
                    return False
    return True if made else None

def self_type(ctx, b):
    """The type behind the receiver reference."""
    if not b['argc']:
        return None
    t = ctx.fx.T[b['locs'][1][0]]
    return ctx.fx.T[t['t']]['s'] if t.get('k') == 'ref' else None

def mutating(ctx, ty):
    """Public operations that change a value of the type."""
    return [r for r in ctx.fx.F.values() if not r.get('clos') and self_of(ctx, r) == ty and r['argc'] and ctx.fx.T[r['locs'][1][0]].get('k') == 'ref' and ctx.fx.T[r['locs'][1][0]].get('mut') and public(ctx, r)]

def merged(g, f, m):
    """Facts g and the facts f with m substituted; None when they contradict each other."""
    g = g.copy()
    for c in f.conds():
        if not g.assume(subst(c, m), True, 4):
            return None
    return g

def entries(u):
    """Loop variables at their values on entry."""
    m = {}
    for lid, info in u.e.loops.items():
        for p, x in info['phis'].items():
            if x is not None and x[0] is not None:
                m[p] = x[0]
        m[info['k']] = ZERO
    return m

def sub2(t, m1, m2):
    return subst(subst(t, m1), m2)

def witness(ctx, b, u, ob, units_of):
    """A short history of public operations, with file contents, that leads to the failing state: the model, or None."""
    kind, sp, cond, val, f, ch = ob
    ty = self_type(ctx, b)
    S = mk('*', mk('p', b['locs'][1][1] or 'a0'))
    f = f.copy()
    if cond.op != 'i' and not f.assume(cond, not val):
        return None
    f = f.subst(entries(u))
    starts = []
    for r in ctx.fx.F.values():
        if r.get('clos') or not (ty in ctx.fx.T[r['locs'][0][0]]['s'] and r['crate'] == 'parcode' and r.get('self') is not None and r['p'].startswith(('parcode::reader::', 'parcode::rt::'))):
            continue
        v = units_of(r)
        for o in v.outs if v is not None else ():
            for a in {s for s in subterms(o.ret) if s.op == 'agg' and str(s.a[0]).startswith(ty.split('<')[0])}:
                starts.append((o.facts.subst(entries(v)), subst(a, entries(v)), [r['m']]))
    for depth in range(3):
        for g, a, hist in starts:
            h = merged(g, f, {S: a})
            if h is None or impossible(h) or murky((), h):
                continue
            env = model(u, h)
            if env is not None:
                return env, hist
        if depth == 2:
            break
        nxt = []
        for g, a, hist in starts:
            for r in mutating(ctx, ty):
                v = units_of(r)
                if v is None:
                    continue
                Q = mk('p', r['locs'][1][1] or 'a0')
                e = entries(v)
                for o in v.outs:
                    post = o.st.m.get(('S', Q))
                    if post is None:
                        continue
                    h = merged(g, o.facts.subst(e), {mk('*', Q): a})
                    if h is not None and not impossible(h) and len(nxt) < 60:
                        nxt.append((h, subst(subst(post, e), {mk('*', Q): a}), hist + [r['m']]))
        starts = nxt
    return None

def counter(ctx, b, ob, units_of):
    """cond is field + 1 <= MAX for a field that starts at a constant and grows by at most one per call."""
    kind, sp, cond, val, f, ch = ob
    if not kind.startswith('overflow:Add'):
        return False
    S = mk('*', mk('p', b['locs'][1][1] or 'a0'))
    fs = {s for s in subterms(cond) if s.op == 'fld' and s.a[0] is S}
    if len(fs) != 1:
        return False
    fl = fs.pop()
    c, m = lparts(cond.a[0]) if cond.op == 'le0' else (0, {})
    if set(m) != {fl}:
        return False
    ty = ctx.fx.T[ctx.fx.T[b['locs'][1][0]]['t']]['s'] if ctx.fx.T[b['locs'][1][0]].get('k') == 'ref' else None
    made = False
    for r in ctx.fx.F.values():
        if r.get('clos') or ty is None:
            continue
        if ty in ctx.fx.T[r['locs'][0][0]]['s'] and r['crate'] == 'parcode' and r.get('self') is not None and r['p'].startswith(('parcode::reader::', 'parcode::rt::')):
            u = units_of(r)
            if u is None:
                return False
            for o in u.outs:
                for a in {s for s in subterms(o.ret) if s.op == 'agg' and str(s.a[0]).startswith(ty.split('<')[0])}:
                    v = terms._fld(a, fl.a[1], fl.a[2])
                    if v.op != 'i' or v.a[0] > 1:
                        return False
                    made = True
        elif self_of(ctx, r) == ty and r['argc'] and ctx.fx.T[r['locs'][1][0]].get('k') == 'ref' and ctx.fx.T[r['locs'][1][0]].get('mut'):
            u = units_of(r)
            if u is None:
                return False
            Q = mk('p', r['locs'][1][1] or 'a0')
            for o in u.outs:
                post = o.st.m.get(('S', Q))
                if post is None:
                    continue
                d = sub_(terms._fld(post, fl.a[1], fl.a[2]), terms._fld(mk('*', Q), fl.a[1], fl.a[2]))
                if d.op != 'i' or d.a[0] > 1:
                    return False
    return made

# ---------------------------------------------------------------- refuting one obligation
import random
from rules_vec import value, atoms, Unknown
FREE = {'rd', 'fld', 'len', 'dec', 'p', 'byte', 'elem', 'declen', 'trunc', 'bitand', 'shr', '*', 'filelen', 'k', 'phi', 'decoded', 'item', 'hash', 'hashed', 'ret', 'payload'}

def width(t):
    if t.op == 'k':
        return ROUNDS
    u = domain.ubound(t)
    return u if u is not None else (1 << 64) - 1

def ints(d):
    s = set()
    atoms(d, s)
    return s

def model(u, f, tries=6000):
    """Values of the file contents and arguments under which all the facts hold: {atom: value}, or None."""
    eqs = []
    for a, x in f.b.items():
        if a.op == 'eqz':
            eqs.append((a.a[0], x))
    qs = list(f.q)
    at = set()
    for d in qs:
        at |= ints(d)
    for d, x in eqs:
        at |= ints(d)
    todo, rel = list(at), []
    seen = set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for d in domain.axioms(t):
            if isinstance(d, Tm) and d.op != 'i':
                rel.append(d)
                for y in ints(d):
                    if y not in seen:
                        todo.append(y)
    at = sorted(seen, key=terms.show)
    if len(at) > 24:
        return None
    if any(t.op not in FREE for t in at):
        return None
    consts = set()
    for d in qs:
        c, m = lparts(d)
        for w in m.values():
            if w and -c // w >= 0:
                consts |= {max(0, -c // w - 1), -c // w, -c // w + 1}
    dom = {}
    for t in at:
        w = width(t)
        vals = {0, 1, 2, 3, 5, 8, 16, 17, 100, 4096, w, w - 1, w // 2, w // 2 + 1, w // 16 + 1, w // 3} | {c for c in consts if 0 <= c <= w}
        dom[t] = sorted(v for v in vals if 0 <= v <= w)
    rnd = random.Random(5)
    def bad(env):
        n = None
        for d in qs + rel:
            try:
                if value(d, env) > 0:
                    return d
            except Unknown:
                return d
        for d, x in eqs:
            try:
                if (value(d, env) == 0) != x:
                    return d
            except Unknown:
                return d
        return None
    small = {t: [v for v in dom[t] if v <= 4096] or dom[t][:1] for t in at}
    for i in range(tries):
        env = {t: rnd.choice(small[t] if rnd.random() < 0.6 else dom[t]) for t in at}
        for j in range(12):
            d = bad(env)
            if d is None:
                return env
            # repair: move one atom of the violated relation
            vs = sorted(ints(d), key=terms.show)
            if not vs:
                break
            t = rnd.choice(vs)
            old = env[t]
            c, m = lparts(d) if d.op == 'lin' else (0, {d: 1})
            if t in m:
                env[t] = 0
                try:
                    rest = value(d, env)
                except Unknown:
                    rest = 0
                w = m[t]
                x = -rest // w if w > 0 else -(-rest // -w) if False else (rest + (-w) - 1) // (-w)
                env[t] = min(max(x, 0), width(t))
                if rnd.random() < 0.3:
                    env[t] = rnd.choice(dom[t])
            else:
                env[t] = rnd.choice(dom[t])
    return None

def reach_phi(u, env, f):
    """Are the values the model gives to loop variables ones the loop can produce?  Only entry values and one step are tried."""
    return not phis_of(u, list(f.q) + list(f.b))

def what(kind):
    return {'alloc': 'allocation', 'tryalloc': 'allocation', 'unwrap': 'unwrap of a missing or failed value', 'panic': 'explicit panic', 'bounds': 'index out of bounds', 'slice': 'slice out of bounds',
            'copylen': 'copy between slices of different lengths', 'chunks0': 'chunks of size zero', 'div0': 'division by zero', 'rem0': 'remainder by zero'}.get(kind, kind.replace('overflow:', 'arithmetic overflow: ').lower())

def refute(u, ob):
    """A reason why the obligation can fail, or None."""
    kind, sp, cond, val, f, ch = ob
    f = f.copy()
    if cond.op != 'i':
        if not f.assume(cond, not val):
            return None
    if murky((), f):
        return None
    for d in loop_invariants(u, f):
        f.q[norm_ineq(d)] = True
    ps = phis_of(u, list(f.q) + list(f.b))
    if not ps:
        env = model(u, f)
        return None if env is None else env
    # loop variables: their values on entry, or after one round with that round's file contents
    for m in unroll(u, ps):
        g = f.subst(m[0])
        h = m[1]
        if h is not None:
            for d in h.q:
                g.q[d] = True
            for a, x in h.b.items():
                g.b[a] = x
        if any(d.op == 'i' and d.a[0] > 0 for d in (norm_ineq(subst(q, m[0])) for q in f.q)):
            continue
        env = model(u, g)
        if env is not None:
            return env
    return None

def unroll(u, ps):
    lids = {p.a[0] for p in ps}
    if len(lids) != 1:
        return
    lid = lids.pop()
    info = u.e.loops[lid]
    k = info['k']
    mine = [p for p in info['phis'] if info['phis'][p] is not None]
    e0 = {p: info['phis'][p][0] for p in mine}
    if any(v is None for v in e0.values()):
        return
    yield dict(e0), None
    n = max([len(info['phis'][p][1]) for p in mine] or [0])
    k0 = mk('k', lid, 'first')
    for j in range(n):
        m, F = {}, None
        for p in mine:
            bk = info['phis'][p][1]
            if j < len(bk):
                F = bk[j][0]
                m[p] = subst(subst(bk[j][1], e0), {k: k0})
        if F is None:
            continue
        h = F.subst(e0).subst({k: k0})
        if any(d.op == 'i' and d.a[0] > 0 for d in (norm_ineq(subst(subst(q, e0), {k: k0})) for q in F.q)):
            continue
        yield m, h

# ---------------------------------------------------------------- C11
def selfcalls(ctx, b):
    import rules_effect as FX
    out = set()
    rows = [b] + [c for c in ctx.fx.F.values() if c.get('clos') and c['p'].startswith(b['p'] + '::')]
    for r in rows:
        for bb in r['bbs']:
            FX.insts(bb, out)
    return out

def inspector_rows(ctx):
    return [b for b in ctx.fx.F.values() if b['p'].startswith('parcode::inspector::') and not b.get('clos') and not b.get('tr') and b.get('exp') is not True and 'fmt' not in b['m']
            and (public(ctx, b) or b['inst'] in selfcalls(ctx, b))]

def obl_unit(ctx, b):
    s = self_of(ctx, b)
    keep = ((s, b['m']),) if b.get('tr') in READ_TRAITS else (b['m'],)
    return ctx.unit(b, ('traits', 'node', 'root', 'decode'), keep=keep, split_paths=True, check_obl=True, maxrec=1)

def name_of(ctx, ob):
    """Function the obligation belongs to, stable under edits."""
    ch = ob[5]
    if ch:
        b = ctx.fx.F.get(ch[-1])
        if b is not None:
            return re.sub(r"::<[^>]*>|\{closure#\d+\}", '', b['p']).replace('parcode::', '').strip(':')
    return '?'

ITER = ('core::iter::traits::iterator::Iterator', 'core::iter::traits::exact_size::ExactSizeIterator', 'core::iter::traits::double_ended::DoubleEndedIterator')

def rows11(ctx):
    seen, out = set(), []
    its = [b for b in ctx.fx.F.values() if b['crate'] == 'parcode' and not b.get('clos') and b.get('exp') is not True and b.get('tr') in ITER and b.get('self') is not None
           and ctx.fx.T[b['self']].get('def', '').startswith(('parcode::reader::', 'parcode::rt::'))]
    for b in read_rows(ctx) + its + inspector_rows(ctx):
        if b['inst'] not in seen:
            seen.add(b['inst'])
            out.append(b)
    return out

def c11(ctx):
    rule = 'no panic on file content'
    kinds = {}
    with with_axioms(ctx):
        for b in rows11(ctx):
            nm = opname(ctx, b)
            ctx.count('read operations')
            u = obl_unit(ctx, b)
            if u is None:
                continue
            done = set()
            for ob in u.e.obl:
                kind = ob[0]
                if kind in ('alloc', 'tryalloc'):
                    continue
                ctx.ob(rule)
                kinds[kind] = kinds.get(kind, 0) + 1
                if ob[4] is None or proved(u, ob):
                    continue
                key = '%s: %s' % (name_of(ctx, ob) or nm, what(kind))
                if key in done:
                    continue
                if summing(ob):
                    ctx.ob('sums of 32-bit values over an in-memory list fit 64 bits')
                    continue
                ty = self_type(ctx, b)
                own_ = ty is not None and mutating(ctx, ty)
                units_of = lambda r: obl_unit(ctx, r)
                if own_:
                    r = unreachable(ctx, b, ob, units_of)
                    if r or counter(ctx, b, ob, units_of):
                        continue
                    if not public(ctx, b):
                        continue                      # judged in the public operation that calls it
                done.add(key)
                hist = ()
                if own_:
                    w = witness(ctx, b, u, ob, units_of)
                    env, hist = w if w is not None else (None, ())
                else:
                    env = refute(u, ob)
                if env is None:
                    ctx.undec('%s: %s (%s)' % (key, sh(ob[2], 120), nm))
                else:
                    wit = ', '.join('%s = %d' % (sh(t, 60), v) for t, v in sorted(env.items(), key=lambda x: terms.show(x[0])))
                    ctx.violate(key, 'reading can panic: %s in %s at %s (reached from %s%s)' % (what(kind), name_of(ctx, ob), ob[1], nm, ' after ' + ', '.join(hist) if hist else ''), 'with ' + wit if wit else 'unconditionally on this path')
    unlimited(ctx, rows11(ctx), 'decoding panics when the recorded length of a string exceeds the largest allocation (capacity overflow)')
    for k, n in sorted(kinds.items()):
        ctx.count('obligations ' + k, n)
    ctx.floor('read operations', 100)
    if sum(kinds.values()) < 60:
        raise Anchor('only %d panic obligations found on read paths' % sum(kinds.values()))

def summing(ob):
    """A 64-bit sum of values of at most 32 bits, one per element of a list in memory."""
    kind, sp, cond, val, f, ch = ob
    if kind not in ('overflow:sum', 'overflow:Add') or cond.op != 'le0':
        return False
    c, m = lparts(cond.a[0] if val else sub_(ONE, cond.a[0]))
    ps = [t for t in m if t.op == 'phi']
    rest = [t for t in m if t.op != 'phi']
    return len(ps) == 1 and m[ps[0]] == 1 and c <= -((1 << 64) - 1) + 1 and len(rest) == 1 and m[rest[0]] == 1 and width(rest[0]) < (1 << 32)

# ---------------------------------------------------------------- decoding with or without a limit
OWNED = re.compile(r'\bString\b|Vec<u8>|\bOsString\b|\bPathBuf\b|ByteBuf|Box<str>|Box<\[u8\]>')

def holds_bytes(ctx, ty, seen=None):
    """Does a value of the named type own a string or byte buffer?"""
    if OWNED.search(ty):
        return True
    seen = seen if seen is not None else set()
    for t in (ctx.fx.T.values() if isinstance(ctx.fx.T, dict) else ctx.fx.T):
        if t.get('s') == ty and t.get('k') == 'adt' and ty not in seen:
            seen.add(ty)
            for v in t['vs']:
                for _, f in v['f']:
                    if holds_bytes(ctx, ctx.fx.T[f]['s'], seen):
                        return True
    return False

def unlimited(ctx, rows, msg):
    """Decodings of types that own bytes must carry a limit: bincode allocates the recorded length of a string before it looks for the bytes."""
    rule = 'decodings of strings are limited'
    found = {}
    for b in rows:
        u = obl_unit(ctx, b)
        if u is None:
            continue
        for o in u.outs:
            for ev in walk(o.ev):
                if ev[0] == 'decode':
                    ty, cfg = str(ev[1]), str(ev[4])
                    ctx.ob(rule)
                    if 'NoLimit' in cfg or 'Limit<' not in cfg:
                        if holds_bytes(ctx, ty):
                            found.setdefault(cfg, (ty, opname(ctx, b)))
    for cfg, (ty, nm) in sorted(found.items()):
        ctx.violate('decode with %s' % cfg, '%s: %s decodes %s with a configuration without limit' % (msg, nm, ty), 'bincode allocates the recorded length before reading the bytes')

# ---------------------------------------------------------------- C12
BIG = 1 << 28
FACTOR = 4096

def backing(ctx, F, n):
    """Terms that the file itself bounds: lengths of things in memory and the recorded lengths of chunks (which lie inside the file)."""
    out = set()
    for d in list(F.q) + [n]:
        for t in ints(d):
            if t.op == 'len' or t.op == 'filelen':
                out.add(t)
            elif t.op == 'fld' and t.a[2] in ctx.cache['backedfields']:
                out.add(t)
    for d in list(F.q) + [n]:
        for t in ints(d):
            if t.op == 'fld' and t.a[2] in ctx.cache['nodefields']:
                for x in ctx.cache['backedfields']:
                    out.add(terms._fld(t.a[0], t.a[1], x))
    return out

def argument(t):
    """A number the caller passed (not a file value)."""
    return t.op == 'p'

def bounded(ctx, u, F, n):
    """Is n at most a constant factor of what the file backs?"""
    F = F.copy()
    for d in loop_invariants(u, F, [n] if n.op == 'lin' else []):
        F.q[norm_ineq(d)] = True
    bs = backing(ctx, F, n)
    slack = I(-65536)
    if F.leq0(add(n, slack), 4):
        return True
    for B in sorted(bs, key=terms.show):
        for w in (1, 8, 256, FACTOR):
            if F.leq0(add(sub_(n, scale(B, w)), slack), 4):
                return True
    tot = ZERO
    for B in bs:
        tot = add(tot, scale(B, 256))
    for a in ints(n):
        if argument(a):
            tot = add(tot, a)
    if bs or tot is not ZERO:
        if F.leq0(add(sub_(n, tot), slack), 4):
            return True
    return False

def oversized(ctx, u, F, n):
    """File contents of a few kilobytes for which n is huge, or None."""
    F = F.copy()
    for B in backing(ctx, F, n):
        F.q[norm_ineq(sub_(B, I(4096)))] = True
    for t in {x for d in list(F.q) + [n] for x in ints(d)}:
        if t.op == 'len':
            F.q[norm_ineq(sub_(t, I(4096)))] = True
        if argument(t):
            F.q[norm_ineq(sub_(t, I(4096)))] = True
    F.q[norm_ineq(sub_(I(BIG), n))] = True
    if murky((), F):
        return None
    ps = phis_of(u, list(F.q) + list(F.b))
    if not ps:
        return model(u, F)
    for m, h in unroll(u, ps):
        g = F.subst(m)
        if h is not None:
            for d in h.q:
                g.q[d] = True
        if any(d.op == 'i' and d.a[0] > 0 for d in (norm_ineq(subst(q, m)) for q in F.q)):
            continue
        env = model(u, g)
        if env is not None:
            return env
    return None

READS = ('decode', 'child', 'read_raw', 'children', 'read_from_shard', 'read_slice_from_shard', 'read_into_slice', 'read_lazy_from_stream', 'from_node', 'create_lazy', 'coll', 'decode_node', 'read_exact', 'io')

def facts_of(info, conds):
    f = domain.Facts()
    for c in conds:
        if not f.assume(c, True, 2):
            return None
    return f

def growth(ctx, u, nm):
    """Loops that append must read something that can run out in every appending round, or be bounded by what the file backs."""
    rule = 'growth in loops is backed'
    for lid, info in sorted(u.e.loops.items()):
        alts = info['alts']
        for a, x in info['accs'].items():
            for conds, pieces in x[1]:
                if not pieces or all(isinstance(p, Tm) and slen(p) is ZERO for p in pieces if isinstance(p, Tm)):
                    continue
                ctx.ob(rule)
                evs = [e for al in alts for e in walk(al[1] if isinstance(al, tuple) and len(al) > 1 else ())]
                per = [al for al in alts if any(e[0] in READS for e in walk(al[1] if isinstance(al, tuple) and len(al) > 1 else ()))]
                if alts and len(per) == len(alts):
                    continue                      # every round reads something
                f = facts_of(info, conds)
                if f is None:
                    continue
                k = info['k']
                if bounded(ctx, u, f, k):
                    continue
                # the length of a list that grows in a loop is limited itself
                lists = [t for t in sorted({t for d in f.q for t in lparts(d)[1] if t.op == 'len' and any(x.op == 'acc' and x.a[1] == a.a[1] for x in subterms(t))}, key=terms.show)]
                if any(bounded(ctx, u, f, t) for t in lists):
                    continue
                if any(any(e[0] in READS for e in walk(al[1])) for al in alts if isinstance(al, tuple) and len(al) > 1):
                    continue
                key = '%s: growth of a list in a loop' % short_fn(info)
                env = oversized(ctx, u, f, k)
                if env is None:
                    ctx.undec('%s (%s)' % (key, nm))
                else:
                    ctx.violate(key, 'a loop whose number of rounds is a file value grows a list without a limit the file backs (%s)' % nm,
                                'with ' + ', '.join('%s = %d' % (sh(t, 60), v) for t, v in sorted(env.items(), key=lambda x: terms.show(x[0]))))

def short_fn(info):
    return re.sub(r"::<[^>]*>|\{closure#\d+\}", '', str(info['where'][0])).replace('parcode::', '').strip(':')

def node_args(b, ctx):
    """Parameters that are chunk handles."""
    out = []
    for l in b['locs'][1:b['argc'] + 1]:
        t = ctx.fx.T[l[0]]
        v = mk('p', l[1] or '?')
        if t.get('k') == 'ref':
            t, v = ctx.fx.T[t['t']], mk('*', v)
        if t.get('k') == 'adt' and t.get('def') == NODE:
            out.append(v)
    return out

def handles(u, o):
    """(chunk handle, facts) built on the way to an outcome."""
    out, seen = [], set()
    def grab(t, f):
        for s in subterms(t):
            if s.op == 'agg' and str(s.a[0]).startswith(NODE) and (s, id(f)) not in seen:
                seen.add((s, id(f)))
                out.append((s, f))
    def outside_rep(t):
        if t.op == 'rep':
            return
        if t.op == 'agg' and str(t.a[0]).startswith(NODE):
            out.append((t, o.facts))
            return
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Tm):
                    outside_rep(y)
    outside_rep(o.ret)
    for info in u.e.loops.values():
        for a, x in info['accs'].items():
            for conds, pieces in x[1]:
                f = facts_of(info, conds)
                if f is not None:
                    for p in pieces if isinstance(pieces, (tuple, list)) else (pieces,):
                        if isinstance(p, Tm):
                            grab(p, f)
    return out

def progress(ctx):
    """A handle made from another handle lies in front of it."""
    rule = 'child chunks lie in front of their parent'
    fl = [n for _, n, _ in num_fields(ctx)]
    off, ln = offlen(ctx)
    made = 0
    keys = {}
    common = {'start', 'end'}
    for b in rows11(ctx):
        ns = node_args(b, ctx)
        if not ns or b['crate'] != 'parcode':
            continue
        u = ctx.unit(b, ('traits', 'node', 'root', 'decode'), keep=(b['m'],), split_paths=True, maxrec=1)
        if u is None:
            continue
        N = ns[0]
        old = {f: terms._fld(N, -1, f) for f in fl}
        done = set()
        for o in u.outs:
            for a, f in handles(u, o):
                new = {x: terms._fld(a, -1, x) for x in fl}
                if all(new[x] is old[x] for x in fl) or (a, id(f)) in done:
                    continue                      # the same chunk
                done.add((a, id(f)))
                ctx.ob(rule)
                made += 1
                oe, ne = add(old[off], old[ln]), add(new[off], new[ln])
                good = set()
                if f.leq0(sub_(ne, old[off]), 5) or f.leq0(sub_(add(new[off], ONE), old[off]), 5):
                    good.add('start')
                if f.leq0(sub_(ne, old[off]), 5) or f.leq0(sub_(add(ne, ONE), oe), 5):
                    good.add('end')
                if good:
                    common &= good
                    continue
                key = '%s: child not in front of its parent' % opname(ctx, b)
                g = f.copy()
                g.q[norm_ineq(sub_(oe, ne))] = True
                env = None
                if not murky((), g) and not any_op(a, BADOPS):
                    env = model(u, g)
                if env is None:
                    ctx.undec(key)
                else:
                    ctx.violate(key, 'following a child reference can lead to a chunk that does not lie in front of the parent: a cyclic file is followed forever (%s)' % opname(ctx, b),
                                'with ' + ', '.join('%s = %d' % (sh(t, 60), v) for t, v in sorted(env.items(), key=lambda x: terms.show(x[0]))))
                common |= {'bad'}
    ctx.count('child references followed on paths', made)
    if not common:
        ctx.undec('child references descend by different measures')
    if not made:
        ctx.undec('no operation that follows child references was understood')

def offlen(ctx):
    """The fields of a handle that hold where the chunk starts and how long it is: those the opener bounds by the file."""
    if 'offlen' in ctx.cache:
        return ctx.cache['offlen']
    fl = [n for _, n, _ in num_fields(ctx)]
    get = {}
    for m in ('offset', 'length'):
        for b in ctx.fx.F.values():
            if b['m'] == m and b.get('self') is not None and ctx.fx.T[b['self']].get('def') == NODE and b['argc'] == 1:
                u = ctx.unit(b, (), keep=(m,))
                for o in u.outs if u is not None else ():
                    if o.ret.op == 'fld' and o.ret.a[2] in fl:
                        get[m] = o.ret.a[2]
    if len(get) < 2:
        raise Anchor('ChunkNode::offset and ChunkNode::length do not return fields')
    ctx.cache['offlen'] = (get['offset'], get['length'])
    return ctx.cache['offlen']

def inside(ctx):
    """The recorded length of every handle lies inside the data."""
    rule = 'chunk lengths lie inside the file'
    bs, ws = builders(ctx)
    off, ln = offlen(ctx)
    ok = not ws
    n = 0
    for b in bs:
        if b.get('tr') == 'core::clone::Clone':
            continue
        u = ctx.unit(b, (), keep=(b['m'],), split_paths=True)
        for o in u.outs if u is not None else ():
            for a in {s for s in subterms(o.ret) if s.op == 'agg' and str(s.a[0]).startswith(NODE)}:
                n += 1
                ctx.ob(rule)
                end = add(terms._fld(a, -1, off), terms._fld(a, -1, ln))
                lim = [t for d in o.facts.q for t in ints(d) if t.op in ('len', 'filelen') or t.op == 'fld' and 'size' in str(t.a[2])]
                if not any(o.facts.leq0(sub_(end, L), 5) for L in lim):
                    ok = False
    return ok and n > 0

def recursions(ctx):
    """Groups of functions on read paths that call each other in a cycle."""
    import rules_effect as FX
    fx = ctx.fx
    R = FX.reach(ctx, rows11(ctx))
    ctx.count('functions on read paths', len(R))
    succ = {}
    for i in R:
        out = set()
        for bb in fx.F[i]['bbs']:
            FX.insts(bb, out)
            for s in list(bb['ss']) + [bb['t']]:
                FX.closures(fx, s, out)
        succ[i] = [j for j in out if j in R]
    idx, low, st, on, res = {}, {}, [], set(), []
    for v0 in sorted(R):
        if v0 in idx:
            continue
        work = [(v0, iter(succ[v0]))]
        idx[v0] = low[v0] = len(idx)
        st.append(v0); on.add(v0)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w); on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        w = st.pop(); on.discard(w); s.append(w)
                        if w == v:
                            break
                    if len(s) > 1 or v in succ[v]:
                        res.append(s)
    return [[fx.F[i] for i in s] for s in res]

def descends(ctx):
    """Recursion on read paths follows child references."""
    rule = 'recursion descends to child chunks'
    for grp in recursions(ctx):
        ctx.ob(rule)
        ctx.count('recursive groups')
        if len(grp) > 1:
            ctx.undec('functions that call each other: %s' % ', '.join(sorted({b['p'] for b in grp})[:4]))
            continue
        b = grp[0]
        nm = re.sub(r"::<[^>]*>", '', b['p']).replace('parcode::', '')
        u = obl_unit(ctx, b)
        if u is None:
            continue
        ns = node_args(b, ctx)
        seen = False
        for o in u.outs:
            for ev in walk(o.ev):
                if ev[0] == 'call' and ev[1] == 'recursive':
                    seen = True
                    args = [u.e.deref(o.st, a) if a.op in ('rv', 'ref') else a for a in ev[4]]
                    if any(x.op == 'child' or x.op == 'elem' or any(s.op == 'child' for s in subterms(x)) for x in args):
                        continue
                    if ns and any(x is n or mk('*', x) is n for x in args for n in ns):
                        ctx.violate('%s: recursion on the same chunk' % nm, 'recursion does not move to another chunk: it never ends', sh(mk('args', *args), 200))
                    else:
                        ctx.undec('%s: argument of the recursive call not understood: %s' % (nm, sh(mk('args', *args), 160)))
        if not seen:
            ctx.undec('%s: recursive call not found on any path' % nm)

def c12(ctx):
    rule = 'allocations are backed or fallible'
    off, ln = offlen(ctx)
    ctx.cache['nodefields'] = {n for _, n, _ in num_fields(ctx)}
    ctx.cache['backedfields'] = {ln} if inside(ctx) else set()
    if not ctx.cache['backedfields']:
        ctx.undec('that chunk lengths lie inside the file could not be proved')
    with with_axioms(ctx):
        for b in rows11(ctx):
            nm = opname(ctx, b)
            ctx.count('read operations')
            u = obl_unit(ctx, b)
            if u is None:
                continue
            done = set()
            for ob in u.e.obl:
                kind, sp, n, _, f, ch = ob
                if kind not in ('alloc', 'tryalloc'):
                    continue
                ctx.ob(rule)
                ctx.count('allocations of computed size')
                if kind == 'tryalloc':
                    ctx.count('fallible allocations')
                    continue
                if n.op == 'i' or bounded(ctx, u, f, n):
                    continue
                key = '%s: allocation' % (name_of(ctx, ob) or nm)
                if key in done:
                    continue
                done.add(key)
                env = oversized(ctx, u, f, n)
                if env is None:
                    ctx.undec('%s of %s elements (%s)' % (key, sh(n, 120), nm))
                else:
                    ctx.violate(key, 'a number read from the file sizes an allocation without a limit the file backs: %s at %s (reached from %s)' % (sh(n, 100), sp, nm),
                                'with ' + ', '.join('%s = %d' % (sh(t, 60), v) for t, v in sorted(env.items(), key=lambda x: terms.show(x[0]))))
            growth(ctx, u, nm)
        progress(ctx)
    descends(ctx)
    unlimited(ctx, rows11(ctx), 'the recorded length of a string is allocated before the bytes are known to exist')
    ctx.floor('read operations', 100)
    ctx.floor('allocations of computed size', 4)
