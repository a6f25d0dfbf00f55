"""Sharded vectors: what the visitor stores, how the reader finds an item again (C09, C16, C20)."""
from core import *
from core import walk
import domain, terms, random
from models import NONE, some
import rules_write as W
import rules_visit as V
import rules_derive as D
from rules_map import strip, args_of, contents, deref_all, isbyte
from rules_write import judge, short, is_some

VEC = 'alloc::vec::Vec'

def vec_rows(ctx, m):
    r = []
    for b in ctx.fx.F.values():
        if b['m'] == m and b.get('self') is not None and ctx.fx.T[b['self']].get('def') == VEC and (b.get('tr') or '').startswith('parcode'):
            r.append((b, args_of(ctx, b['self'])[0]))
    return sorted(r, key=lambda x: x[1])

# ---------------------------------------------------------------- arithmetic counterexamples
class Unknown(Exception):
    pass

def value(t, env):
    """The integer a term denotes under env (atom -> int)."""
    if t in env:
        return env[t]
    o = t.op
    if o == 'i':
        return t.a[0]
    if o == 'lin':
        c, m = lparts(t)
        return c + sum(w * value(a, env) for a, w in m.items())
    if o in ('mul', 'min', 'max', 'div', 'rem', 'cdiv'):
        if o == 'mul':
            r = 1
            for q in mul_args(t):
                r *= value(q, env)
            return r
        x, y = [value(q, env) for q in t.a[:2]]
        if o in ('div', 'rem', 'cdiv') and y == 0:
            raise Unknown()
        return min(x, y) if o == 'min' else max(x, y) if o == 'max' else x // y if o == 'div' else x % y if o == 'rem' else -(-x // y)
    if o == 'ssub':
        return max(0, value(t.a[0], env))
    raise Unknown()

def mul_args(t):
    return [q for a in t.a for q in (a if isinstance(a, tuple) else (a,))]

def atoms(t, out):
    if t.op == 'lin':
        for a in lparts(t)[1]:
            atoms(a, out)
    elif t.op in ('mul', 'min', 'max', 'div', 'rem', 'cdiv', 'ssub'):
        for a in mul_args(t):
            if isinstance(a, Tm):
                atoms(a, out)
    elif t.op != 'i':
        out.add(t)

def valuations(ts, L, facts, n=300):
    """Assignments to the atoms of ts that agree with the linear facts; L is the length atom."""
    at = set()
    for t in ts:
        atoms(t, at)
    at.discard(L)
    rel = [d for d in facts.q]
    at = sorted(at, key=lambda t: terms.show(t))
    dom = (0, 1, 3, 8, 40, 1000, 5000, 70000)
    lens = (0, 1, 2, 3, 5, 7, 8, 9, 16, 33, 100, 1001, 4096, 5000, 40000)
    rnd = random.Random(7)
    for i in range(n):
        vs = [lens[i % len(lens)]] + [rnd.choice(dom) for _ in at]
        env = dict(zip([L] + at, vs))
        ok = True
        for d in rel:
            try:
                if value(d, env) > 0:
                    ok = False
                    break
            except Unknown:
                pass
        if ok:
            for c, x in facts.b.items():
                if c.op == 'eqz':
                    try:
                        if (value(c.a[0], env) == 0) != x:
                            ok = False
                            break
                    except Unknown:
                        pass
        if ok:
            yield env

def tiling(lo, hi, k, n, L, facts):
    """Do the ranges lo(k)..hi(k), k < n, cover 0..L in order?  (True, None), (False, witness) or (None, None)."""
    c = None
    for t in subterms(n):
        if t.op == 'cdiv' and t.a[0] is L:
            c = t.a[1]
    if c is not None and n is mk('cdiv', L, c) and lo is mul(c, k) and (hi is tmin(L, add(c, mul(c, k))) or hi is tmin(L, mul(c, add(k, ONE)))):
        return True, None
    if n is L and lo is k and hi is add(k, ONE):
        return True, None
    for env in valuations([subst(t, {k: ZERO}) for t in (lo, hi, n)], L, facts):
        try:
            nn = value(n, env)
            if nn > 300:
                continue
            at_, good = 0, True
            for i in range(nn):
                e = dict(env); e[k] = i
                a, b = value(lo, e), value(hi, e)
                if a != at_ or b < a:
                    good = False
                at_ = b
            if not good or at_ != env[L]:
                return False, 'with %s' % ', '.join('%s = %d' % (terms.show(q)[:60], x) for q, x in env.items())
        except Unknown:
            continue
    return None, None

# ---------------------------------------------------------------- writing
def run_fields(t):
    t = strip(t)
    return t.a[2] if t.op == 'agg' and len(t.a[2]) == 2 else None

def unphi(t, lid):
    m = {s: mk('before', s.a[1]) for s in subterms(t) if s.op == 'phi' and s.a[0] == lid}
    return subst(t, m) if m else t

def runs_table(ctx, u, o, runs, clen, k, n, L, what, det):
    """The run-length table expands to the lengths clen(k), k < n."""
    rule = 'the run-length table lists the shards'
    ps = list(pieces(runs)) if runs.op == 'seq' else None
    if ps is None:
        return ctx.undec('%s: run table %s' % (what, short(runs)))
    if all(p.op == 'b' for p in ps):
        rows = [run_fields(p.a[0]) for p in ps]
        if None in rows:
            return ctx.undec('%s: run table %s' % (what, short(runs)))
        if not any(s.op == 'phi' for r in rows for s in subterms(r[0]) | subterms(r[1])) if rows else True:
            ctx.ob(rule)
            ts = [x for r in rows for x in r]
            for env in valuations(ts + [subst(clen, {k: ZERO}), n], L, o.facts):
                try:
                    nn = value(n, env)
                    if nn > 300:
                        continue
                    want = []
                    for i in range(nn):
                        e = dict(env); e[k] = i
                        want.append(value(clen, e))
                    got = []
                    for c, r in rows:
                        got += [value(c, env)] * min(value(r, env), 1000)
                    if got != want:
                        ctx.violate('%s: run table' % what, 'the run table is %s, which does not list the shards, e.g. with %s' % (short(runs), ', '.join('%s = %d' % (terms.show(q)[:60], x) for q, x in env.items())), det)
                        return
                except Unknown:
                    continue
            return
    # a fold over the shards: (runs pushed so far, current run)
    last = run_fields(ps[-1].a[0]) if ps[-1].op == 'b' else None
    if len(ps) == 1 and ps[0].op == 'rep':
        cur = [run_fields(q.a[0]) for c, qs in ps[0].a[2] for q in qs if q.op == 'b']
        if cur and cur[0] is not None and cur[0][1].op == 'phi':
            return judge(ctx, rule, o.facts.leq0(cur[0][1], 3), '%s: last run' % what, 'the last run is not part of the run table', det)
    lids = {s.a[0] for p in ps for s in subterms(p) if s.op == 'phi'} if ps else set()
    if last is None or len(lids) != 1 or len(ps) > 2:
        return ctx.undec('%s: run table %s' % (what, short(runs)))
    lid = lids.pop()
    info = u.e.loops.get(lid)
    if info is None or len(ps) == 2 and ps[0].op != 'rep':
        return ctx.undec('%s: run table %s' % (what, short(runs)))
    kk = info['k']
    cl = subst(clen, {k: kk})
    for tag, cnt in info['exits']:
        judge(ctx, rule, cnt is not None and o.facts.implies(eqz(sub_(cnt, n))) is True, '%s: shards in the run table' % what, 'the run table is built from %s shards of %s' % (short(cnt) if cnt is not None else 'some', short(n)), det, [cnt] if cnt is not None else [mk('havoc')])
    # transitions
    nb = len(info['backs'])
    def entry_back(t, i):
        p = info['phis'].get(t)
        if p is None:
            return (t, t)
        return p[0], (p[1][i][1] if len(p[1]) == nb else None)
    pushed = None
    for a, (ent, al, hp) in info["accs"].items():
        if len(al) == nb and any(x.op == 'b' and run_fields(x.a[0]) is not None for c, q in al for x in q):
            if pushed is not None:
                return ctx.undec('%s: several accumulators build the run table' % what)
            pushed = (ent, al)
    if len(ps) == 2 and (pushed is None or not empty(pushed[0])):
        return ctx.undec('%s: run table %s' % (what, short(runs)))
    if len(ps) == 1 and pushed is not None:
        return judge(ctx, rule, False, '%s: run table' % what, 'finished runs are not part of the run table', det)
    e1 = entry_back(last[1], 0)[0]
    judge(ctx, rule, e1 is ZERO, '%s: first run' % what, 'the first run starts with %s shards' % short(e1), det, [unphi(e1, lid)])
    for i in range(nb):
        f = info['backs'][i].facts
        x0, x1 = entry_back(last[0], i)[1], entry_back(last[1], i)[1]
        if x0 is None or x1 is None:
            ctx.undec('%s: run table step' % what)
            continue
        P = list(pushed[1][i][1]) if pushed else []
        def same(a, b):
            return a is b or f.implies(eqz(sub_(a, b))) is True
        if not P:
            good = same(x0, last[0]) and same(x1, add(last[1], ONE)) and same(last[0], cl) or same(x0, cl) and same(x1, ONE) and same(last[1], ZERO)
        elif len(P) == 1:
            r = run_fields(P[0].a[0])
            good = r is not None and same(r[0], last[0]) and same(r[1], last[1]) and same(x0, cl) and same(x1, ONE)
        else:
            good = False
        judge(ctx, rule, good, '%s: run table step' % what, 'after a shard of %s items the runs (…, (%s, %s)) become %s, (%s, %s)' % (short(unphi(cl, lid), 80), short(unphi(last[0], lid), 60), short(unphi(last[1], lid), 60), short(unphi(mk('seq', tuple(P)), lid), 120), short(unphi(x0, lid), 80), short(unphi(x1, lid), 80)), det,
              [unphi(x, lid) for x in (x0, x1) + tuple(P)])

def empty(t):
    return t.op == 'seq' and not t.a[0] or slen(t) is ZERO

def sharding(ctx):
    """Every way a vector becomes chunks."""
    for b, T in vec_rows(ctx, 'visit'):
        u = V.visit_unit(ctx, b)
        if u is None:
            continue
        what = 'Vec<%s>::visit' % T.rsplit('::', 1)[-1]
        S = D.selfval(b)
        L = slen(S)
        seen = set()
        for o in u.outs:
            det = path_text(o)
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                continue
            ctx.count('vector layouts')
            nodes = [x for x in o.ev if x[0] == 'add_node']
            loops = [x for x in o.ev if x[0] == 'loop']
            odd = [x for x in o.ev if x[0] in ('visit', 'visit_inlined', 'replace_job')]
            if len(nodes) != 1 or odd:
                judge(ctx, 'a vector is one container', False, '%s: %d containers' % (what, len(nodes)), 'a vector becomes %d nodes outside its shards' % len(nodes), det)
                continue
            if not loops:
                isempty = o.facts.leq0(L, 3)
                judge(ctx, 'only an empty vector has no shards', isempty, '%s: no shards' % what, 'a vector of %s items gets no shards' % short(L), det, [L])
                seen.add('empty')
                container(ctx, u, o, nodes[0], S, L, mk('k', 'none'), ZERO, ZERO, what, det)
                continue
            seen.add('shards')
            r = shard_loop(ctx, u, o, nodes[0], loops, S, L, T, what, det)
            if r is not None:
                k, n, lo, hi = r
                container(ctx, u, o, nodes[0], S, L, k, n, sub_(hi, lo), what, det)
        judge(ctx, 'vectors are sharded', 'shards' in seen or not u.outs, '%s: never sharded' % what, 'no path creates shards', '')
    ctx.floor('vector layouts', 60)

def container(ctx, u, o, node, S, L, k, n, clen, what, det):
    cs = contents(ctx, u, o, node[2], lambda a: True, what)
    for q, c in cs or ():
        ps = list(pieces(c))
        good = len(ps) == 2 and ps[0].op == 'le' and ps[0].a[0] == 8 and ps[1].op == 'enc'
        judge(ctx, 'the container is the total and the run table', good, '%s: container' % what, 'the container holds %s' % short(tuple(ps)), det, ps)
        if not good:
            continue
        judge(ctx, 'the recorded total is the number of items', ps[0].a[1] is L or o.facts.implies(eqz(sub_(ps[0].a[1], L))) is True, '%s: total' % what, 'the recorded total is %s' % short(ps[0].a[1]), det, [ps[0].a[1]])
        runs = deref_all(ps[1].a[1])
        if n is ZERO:
            got = runs.op == 'seq' and (not runs.a[0] or all(p.op == 'rep' and q.facts.leq0(p.a[0], 3) for p in pieces(runs)))
            judge(ctx, 'an empty vector has no runs', got, '%s: runs of an empty vector' % what, 'an empty vector has the runs %s' % short(runs), det, [runs])
            continue
        runs_table(ctx, u, o, runs, clen, k, n, L, what, det)

def shard_loop(ctx, u, o, cont, loops, S, L, T, what, det):
    if len(loops) != 1:
        ctx.undec('%s: %d loops create shards' % (what, len(loops)))
        return None
    lp = loops[0]
    info = u.e.loops.get(lp[1])
    k, n = info['k'], lp[2]
    for tag, cnt in info['exits']:
        judge(ctx, 'every shard is created', cnt is n, '%s: shards created' % what, 'the shard loop may stop early', det, [cnt] if cnt is not None else [])
    res = None
    for conds, ev in lp[3]:
        nodes = [x for x in ev if x[0] == 'add_node']
        links = [x for x in ev if x[0] == 'link']
        if len(nodes) != 1:
            judge(ctx, 'one chunk per shard', False, '%s: chunks per shard' % what, '%d chunks are created for a shard when %s' % (len(nodes), ' and '.join(sh(c, 80) for c in conds[:4])), det)
            continue
        nid, job = nodes[0][1], nodes[0][2]
        for x in ev:
            if x[0] == 'replace_job' and x[1] is nid:
                job = x[2]
        judge(ctx, 'shards are children of the container', len(links) == 1 and links[0][1] is cont[1] and links[0][2] is nid, '%s: shard link' % what, 'shards are linked as %s' % [short(x[1:3]) for x in links], det)
        cs = contents(ctx, u, o, job, lambda a: a[-1:] == [T], what)
        rng = None
        for q, c in cs or ():
            ps = list(pieces(c))
            v = deref_all(ps[0].a[1]) if len(ps) == 1 and ps[0].op == 'slice' and ps[0].a[0] == T else None
            judge(ctx, 'a shard is one slice of the items', v is not None, '%s: shard contents' % what, 'a shard holds %s' % short(tuple(ps)), det, ps)
            if v is None:
                continue
            if v is S:
                rng = (ZERO, L)
            elif v.op == 'sub' and v.a[0] is S:
                rng = (v.a[1], v.a[2])
            else:
                judge(ctx, 'a shard is one slice of the items', False, '%s: shard contents' % what, 'a shard holds the items %s' % short(v), det, [v])
        if rng is None:
            continue
        lo, hi = rng
        ctx.ob('the shards cover the vector in order')
        t, wit = tiling(lo, hi, k, n, L, o.facts)
        if t is False:
            ctx.violate('%s: shard ranges' % what, 'shard %s of %s holds the items %s..%s, which do not cover the vector exactly, e.g. %s' % (short(k), short(n), short(lo), short(hi), wit), det)
        elif t is None:
            ctx.undec('%s: shards hold %s..%s' % (what, short(lo), short(hi)))
        # children of the items
        il = [x for x in ev if x[0] == 'loop']
        direct = [x for x in ev if x[0] in ('visit', 'visit_inlined')]
        f = o.facts.copy()
        for c in conds:
            f.assume(c)
        rule = 'child chunks of the items hang below their shard in item order'
        if not il and not direct:
            judge(ctx, rule, False, '%s: items not visited' % what, 'the items of a shard are not visited', det)
        elif len(il) != 1 or direct:
            ctx.undec('%s: items visited by %d loops' % (what, len(il)))
        else:
            li = u.e.loops.get(il[0][1])
            cnt = il[0][2]
            judge(ctx, rule, f.implies(eqz(sub_(cnt, sub_(hi, lo)))) is True and all(c is cnt for _, c in li['exits']), '%s: items visited' % what, '%s items are visited of a shard of %s' % (short(cnt), short(sub_(hi, lo))), det, [cnt])
            for c2, e2 in il[0][3]:
                vs = [x for x in e2 if x[0] in ('visit', 'visit_inlined')]
                good = len(vs) == 1 and vs[0][0] == 'visit_inlined' and deref_all(vs[0][2]) is elem(S, add(lo, li['k'])) and vs[0][3][1] is nid
                judge(ctx, rule, good, '%s: child of an item' % what, 'item %s of a shard is visited as %s' % (short(li['k']), [short((x[0], x[2], x[3][1])) for x in vs]), det, [x[2] for x in vs] + [x[3][1] for x in vs])
        res = (k, n, lo, hi)
    return res

def c09(ctx):
    sharding(ctx)
    V.linking(ctx)
    for b in sorted((b for b in ctx.fx.F.values() if b.get('tr') == V.VIS and b['m'] == 'serialize_slice'), key=lambda b: V.selfname(ctx, b)):
        if D.slices(ctx, V.selfname(ctx, b)) is None:
            ctx.undec('%s::serialize_slice: layout not recognised' % V.selfname(ctx, b))
    ctx.floor('slice writers', 10)
