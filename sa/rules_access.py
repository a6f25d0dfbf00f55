"""C16 (random access) and C20 (iteration) over sharded collections."""
import re
from core import *
from core import walk
import units
import rules_vec as E
import rules_derive as D
from rules_load import Sim, inner
from rules_write import judge, short, is_some
from rules_err import read_rows, read_unit, opname, self_of, result_of, failures
from models import NONE

LAZYTYPES = E.Unknown

# ---------------------------------------------------------------- C16
VALID = [[(1, 1)], [(3, 1)], [(2, 2)], [(2, 2), (1, 1)], [(3, 2), (2, 3), (1, 1)], [(4, 3), (4, 1), (1, 1)], [(5, 1), (1, 2), (5, 1)], [(1, 4), (2, 1), (1, 1)]]

def locate(runs, i):
    s = 0
    for c, r in runs:
        if i < c * r:
            return s + i // c, i % c
        i -= c * r
        s += r
    return None

class Access:
    """One successful path of a point access: which shard, which item of it."""
    def __init__(self, u, o, node, s, l):
        self.u, self.o, self.node, self.s, self.l = u, o, node, s, l

def loops_of(u, ts):
    """Loop ids whose variables occur in the terms."""
    r = set()
    for t in ts:
        for s in subterms(t):
            if s.op == 'phi':
                r.add(s.a[0])
            elif s.op == 'k' and isinstance(s.a[0], int) and s.a[0] in u.e.loops:
                r.add(s.a[0])
    return r

def ev_facts(F, sim, env):
    """False if an arithmetic fact is violated, else True."""
    for d in F.q:
        try:
            if sim.val(d, env) > 0:
                return False
        except E.Unknown:
            pass
    for c, x in F.b.items():
        if c.op == 'eqz':
            try:
                if (sim.val(c.a[0], env) == 0) != x:
                    return False
            except E.Unknown:
                pass
    return True

def simulate(u, acc, runs, index, I):
    """(shard, item) reached for a run table and an index; None if the access is refused."""
    groups = {}
    for a in acc:
        groups.setdefault(frozenset(loops_of(u, [a.s, a.l])), []).append(a)
    got = {simulate1(u, g, runs, index, I) for g in groups.values()} - {None}
    if len(got) > 1:
        raise E.Unknown()
    return got.pop() if got else None

def simulate1(u, acc, runs, index, I):
    total, cc = sum(c * r for c, r in runs), sum(r for c, r in runs)
    sim = Sim(u, runs, cc, total)
    base = {I: index} if I is not None and I.op == 'p' else {}
    lids = set()
    for a in acc:
        lids |= loops_of(u, [a.s, a.l])
    # the skip loop of lazy access is not part of the arithmetic
    if not lids:
        hits = [a for a in acc if ev_facts(a.o.facts, sim, base)]
        got = {(sim.val(a.s, base), sim.val(a.l, base)) for a in hits}
        if len(got) > 1:
            raise E.Unknown()
        return got.pop() if got else None
    order = sorted(lids, key=lambda l: len(u.e.loops[l]['entry_facts'].q) if u.e.loops[l].get('entry_facts') else 0)
    outer = [l for l in lids if any(p[1] and p[0] is not None for p in u.e.loops[l]['phis'].values() if p)]
    if len(lids) > 2:
        raise E.Unknown()
    lo = outer[0] if len(outer) == 1 else (sorted(lids)[0] if len(lids) == 1 else None)
    if lo is None:
        raise E.Unknown()
    li = [l for l in lids if l != lo]
    info = u.e.loops[lo]
    env = dict(base)
    for p, d in info['phis'].items():
        if d is not None:
            try:
                env[p] = sim.val(d[0], base)
            except E.Unknown:
                pass
    for k in range(200):
        env[info['k']] = k
        inners = [dict(env)]
        if li:
            i2 = u.e.loops[li[0]]
            if i2['phis'] and any(d is not None for d in i2['phis'].values()):
                raise E.Unknown()
            n = None
            for tag, c in i2['exits']:
                if c is not None:
                    try:
                        n = sim.val(c, env)
                    except E.Unknown:
                        pass
            if n is None:
                raise E.Unknown()
            inners = []
            for q in range(n):
                e = dict(env); e[i2['k']] = q
                inners.append(e)
        for e in inners:
            hits = [a for a in acc if ev_facts(a.o.facts, sim, e)]
            got = {(sim.val(a.s, e), sim.val(a.l, e)) for a in hits}
            if len(got) > 1:
                raise E.Unknown()
            if got:
                return got.pop()
        nxt = None
        for i, bk in enumerate(info['backs']):
            if not ev_facts(bk.facts, sim, env):
                continue
            nx = {}
            for p, d in info['phis'].items():
                if d is not None and p in env and len(d[1]) == len(info['backs']):
                    try:
                        nx[p] = sim.val(d[1][i][1], env)
                    except E.Unknown:
                        pass
            if nxt is not None and nxt != nx:
                raise E.Unknown()
            nxt = nx
        if nxt is None:
            return None
        env = dict(base)
        env.update(nxt)
    raise E.Unknown()

def proved(u, a, I):
    """Index arithmetic by induction over the runs: the item is the index-th one."""
    lids = loops_of(u, [a.s, a.l])
    c = r = None
    k = None
    for l in lids:
        info = u.e.loops[l]
        for t in (a.s, a.l) + tuple(a.o.facts.q):
            for s in subterms(t):
                if s.op == 'fld' and s.a[0].op == 'elem' and s.a[0].a[0].op == 'dec' and s.a[0].a[1] is info['k']:
                    k = info
    if k is None:
        return False
    R = None
    for t in (a.s, a.l) + tuple(a.o.facts.q):
        for s in subterms(t):
            if s.op == 'elem' and s.a[0].op == 'dec' and s.a[1] is k['k']:
                R = s
    fs = None
    for row in u.e.fx.T.values():
        if row.get('k') == 'adt' and row['s'] == inner(str(R.a[0].a[0])):
            fs = [f[0] for f in row['vs'][0]['f']]
    if not fs or len(fs) != 2:
        return False
    c, r = terms._fld(R, -1, fs[0]), terms._fld(R, -1, fs[1])
    B, S = mk('itemsbefore'), mk('shardsbefore')
    m = {}
    lower = True
    for p, d in k['phis'].items():
        if d is None or p.op != 'phi' or not d[1]:
            continue
        def all_(e, step):
            return (d[0] is e or sub_(d[0], e) is ZERO) and all(sub_(b, p) is step or f.implies(eqz(sub_(sub_(b, p), step))) is True for f, b in d[1])
        if all_(ZERO, mul(c, r)):
            m[p] = B
            lower = lower and all(f.leq0(sub_(b, I), 3) for f, b in d[1])
        elif all_(ZERO, r):
            m[p] = S
        elif all_(I, scale(mul(c, r), -1)):
            m[p] = sub_(I, B)
    s, l = subst(a.s, m), subst(a.l, m)
    F = a.o.facts.subst(m) if m else a.o.facts
    x = sub_(I, B)
    q = sub_(s, S)
    if any_op(s, ('phi',)) or any_op(l, ('phi',)):
        return False
    r_ = rem(x, c)
    if q is div(x, c) and (l is r_ or l is ZERO and F.leq0(r_, 2) or F.implies(eqz(sub_(l, r_))) is True or add(mul(q, c), l) is x):
        small = True
    elif add(mul(q, c), l) is x:
        small = F.leq0(add(sub_(l, c), ONE), 3)
    else:
        return False
    return small and lower and F.leq0(add(sub_(x, mul(c, r)), ONE), 4)

def point_rows(ctx):
    rows = []
    for b in read_rows(ctx):
        if b['m'] in ('get', 'get_lazy', 'first', 'last') and 'MapPromise' not in self_of(ctx, b):
            rows.append(b)
    return rows

def recorded(node):
    return mk('rd', 'le', 8, mk('payload', node), ZERO)

def access_of(ctx, u, o, v, what, det):
    """Decompose the returned item into (node, shard, local index); None if not recognised."""
    for t in (v,):
        if t.op == 'elem' and t.a[0].op == 'items':
            it, l = t.a[0], t.a[1]
            cur, ch = it.a[1], it.a[2]
            pos = ZERO
        elif t.op == 'lazyitem':
            cur, ch, l, pos = t.a[1], t.a[2], None, None
        elif t.op == 'item':
            cur, ch, l, pos = t.a[1], t.a[2], None, None
        else:
            return None
    if cur.op != 'agg' or cur.a[0] != 'Cursor':
        return None
    src = cur.a[2][0]
    src = src.a[0] if src.op == 'rv' else src
    if src.op != 'payload' or src.a[0].op != 'child':
        return None
    shard = src.a[0]
    node, s = shard.a[0], shard.a[1]
    def own(it0):
        return it0.op == 'it' and it0.a[0] == 'seq' and it0.a[2] is ZERO and any(x.op == 'child' and x.a[0] is shard for x in subterms(it0.a[1]))
    if l is not None:
        judge(ctx, 'items are read from the start of their shard', cur.a[2][1] is ZERO, '%s: start of the shard' % what, 'the items of a shard are read from %s' % short(cur.a[2][1]), det, [cur.a[2][1]])
        judge(ctx, 'items get the children of their shard', own(ch), '%s: children of the shard' % what, 'the items of a shard are given the children %s' % short(ch), det, [ch])
        return Access(u, o, node, s, l)
    p = cur.a[2][1]
    T = v.a[0]
    if p.op != 'phi':
        if p.op == 'posafter':
            return None
        l = ZERO
        judge(ctx, 'items follow the length of their shard', p.op == 'declen' and p.a[0] == 'u64' and p.a[1] is mk('payload', shard) and p.a[2] is ZERO, '%s: first item' % what, 'the first item is read at %s' % short(p), det, [p])
        judge(ctx, 'items get the children of their shard', own(ch), '%s: children of the shard' % what, 'the items of a shard are given the children %s' % short(ch), det, [ch])
        return Access(u, o, node, s, l)
    info = u.e.loops.get(p.a[0])
    pd = info['phis'].get(p) if info else None
    cd = info['phis'].get(ch) if info and ch.op == 'phi' else None
    lp = [x for x in o.ev if x[0] == 'loop' and x[1] == p.a[0]]
    if pd is not None and ch.op == 'it' and own(ch) and len(lp) == 1:
        judge(ctx, 'skipping passes one item at a time', False, '%s: children of a skipped item' % what, 'skipping an item leaves the children at %s' % short(ch), det)
    if pd is None or cd is None or len(lp) != 1:
        return None
    e = pd[0]
    judge(ctx, 'items follow the length of their shard', e.op == 'declen' and e.a[0] == 'u64' and e.a[1] is mk('payload', shard) and e.a[2] is ZERO, '%s: first item' % what, 'the first item of a shard is read at %s' % short(e), det, [e])
    judge(ctx, 'items get the children of their shard', own(cd[0]), '%s: children of the shard' % what, 'the items of a shard are given the children %s' % short(cd[0]), det, [cd[0]])
    sk = mk(v.op, T, mk('agg', 'Cursor', 0, (cur.a[2][0], p)), ch)
    for f, b in pd[1]:
        judge(ctx, 'skipping passes one item at a time', b is mk('posafter', sk, p), '%s: skipped item' % what, 'skipping an item moves the stream to %s' % short(b), det, [] if b.op == 'posafter' or b is p else [b])
    for f, b in cd[1]:
        judge(ctx, 'skipping passes one item at a time', b is mk('after', sk, ch), '%s: children of a skipped item' % what, 'skipping an item leaves the children at %s' % short(b), det, [] if b.op == 'after' or b is ch else [b])
    return Access(u, o, node, s, lp[0][2])

def c16(ctx):
    for b in point_rows(ctx):
        u = read_unit(ctx, b)
        if u is None:
            continue
        what = opname(ctx, b)
        m = b['m']
        acc, I = [], None
        ctx.count('point access operations')
        bad = False
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            det = path_text(o)
            if failures(o):
                continue    # C14
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                bad = True
                continue
            v = o.ret.a[2][0]
            if m in ('first', 'last'):
                if v.op == 'agg' and v.a[0] == 'core::option::Option' and v.a[1] == 0:
                    ctx.count('empty first/last')
                    nodes = {x[1] for x in o.ev if x[0] == 'read_raw'}
                    good = any(o.facts.leq0(recorded(n), 3) or o.facts.leq0(slen(mk('payload', n)), 3) for n in nodes)
                    judge(ctx, 'nothing is returned only for an empty collection', good, '%s: invented emptiness' % what, '%s returns None although the collection may have items' % what, det)
                    continue
                if not is_some(v):
                    ctx.undec('%s: result %s' % (what, short(v)))
                    bad = True
                    continue
                v = v.a[2][0]
            a = access_of(ctx, u, o, v, what, det)
            if a is None:
                ctx.undec('%s: result %s' % (what, short(v)))
                bad = True
                continue
            acc.append(a)
        if not acc:
            if not bad:
                judge(ctx, 'access can succeed', False, '%s: never succeeds' % what, '%s has no successful path' % what, '')
            continue
        ctx.count('point accesses')
        node = acc[0].node
        if m == 'first':
            I = ZERO
        elif m == 'last':
            I = sub_(recorded(node), ONE)
        else:
            I = mk('p', b['locs'][2][1] or 'a1')
        rule = 'the item at an index is found by its position'
        ctx.ob(rule)
        if all(proved(u, a, I) for a in acc):
            ctx.count('index arithmetic proved by induction over the runs')
            # completeness: a valid index is not refused
        wit = None
        known = True
        tried = 0
        for runs in VALID:
            total = sum(c * r for c, r in runs)
            idx = [0] if m == 'first' else [total - 1] if m == 'last' else range(total + 2)
            for i in idx:
                try:
                    got = simulate(u, acc, runs, i, I)
                except E.Unknown:
                    known = False
                    continue
                tried += 1
                want = locate(runs, i)
                if got == want:
                    continue
                if want is None:
                    # refused later unless the shard and the item exist
                    lens = [c for c, r in runs for _ in range(r)]
                    if not (0 <= got[0] < len(lens) and 0 <= got[1] < lens[got[0]]):
                        continue
                    wit = 'index %d of a collection of %d items (runs %s) gives item %d of shard %d instead of an error' % (i, total, runs, got[1], got[0])
                elif got is None:
                    wit = 'index %d of a collection of %d items (runs %s) is refused' % (i, total, runs)
                else:
                    wit = 'index %d of a collection of %d items (runs %s) is looked up as item %d of shard %d instead of item %d of shard %d' % (i, total, runs, got[1], got[0], want[1], want[0])
                break
            if wit:
                break
        if wit:
            ctx.violate('%s: item at an index' % what, wit, path_text(acc[0].o))
        elif not known or not tried:
            ctx.undec('%s: index arithmetic not evaluated' % what)
        elif not all(proved(u, a, I) for a in acc):
            ctx.undec('%s: index arithmetic not proved (shard %s, item %s)' % (what, short(acc[0].s), short(acc[0].l)))
        else:
            ctx.count('index equations evaluated', tried)
    ctx.floor('point access operations', 5)
    lazy_scalars(ctx)

def lazy_scalars(ctx):
    """Lazy access to an item of a scalar type reads the item."""
    for b in sorted((b for b in ctx.fx.F.values() if b['m'] == 'read_lazy_from_stream' and b.get('tr') == units.LAZY), key=lambda b: self_of(ctx, b)):
        s = self_of(ctx, b)
        if s not in D.SCALARS:
            continue
        u = read_unit(ctx, b)
        if u is None:
            continue
        P = mk('p', b['locs'][1][1] or 'a0')
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            ctx.count('lazy scalar readers')
            moved = any(r[0] == 'S' and r[1] is P for r in o.st.m)
            judge(ctx, 'a lazy scalar is read where it is stored', moved, 'lazy items of scalar types', 'reading a lazy %s from a stream takes a child chunk although items are stored in the stream' % s, path_text(o))

# ---------------------------------------------------------------- C20
ITER = 'core::iter::traits::iterator::Iterator'

class State:
    """Fields of an iterator before and after a call."""
    def __init__(self, ctx, b, u, o):
        self.P = mk('p', b['locs'][1][1] or 'a0')
        self.cur = mk('*', self.P)
        self.post = self.cur
        for r, v in o.st.m.items():
            if r[0] == 'S' and r[1] is self.P:
                self.post = v
        self.names = fields(ctx, b)
    def pre(self, f):
        return terms._fld(self.cur, -1, f)
    def after(self, f):
        return terms._fld(self.post, -1, f)
    def map(self):
        return {self.pre(f): self.after(f) for f in self.names}

def fields(ctx, b):
    r = ctx.fx.T[b['self']]
    return [f[0] for f in r['vs'][0]['f']]

def iter_rows(ctx):
    return [b for b in read_rows(ctx) if b.get('tr') == ITER and b['m'] == 'next']

def lin0(t):
    """Strip a saturating subtraction: the linear form inside."""
    return t.a[0] if t.op == 'ssub' else t

def remaining(ctx, b, u):
    """The iterator's own count of what is left, over its fields: from size_hint/len, or from the test that ends next."""
    me = self_of(ctx, b)
    hs = {}
    for q in sorted(ctx.fx.F.values(), key=lambda q: q['p']):
        if q.get('self') is not None and self_of(ctx, q) == me and q['m'] in ('size_hint', 'len') and q['crate'] == 'parcode':
            uq = read_unit(ctx, q)
            hs[q['m']] = (q, uq)
    return hs

def c20(ctx):
    rows = iter_rows(ctx)
    for b in rows:
        u = read_unit(ctx, b)
        if u is not None:
            iteration(ctx, b, u)
    ctx.floor('iterators', 3)
    ctx.floor('item-yielding paths', 2)
    ctx.floor('iterator constructors', 3)
    lengths(ctx)
    ctx.floor('length paths', 4)

def h_of(ctx, b, u, what):
    """h: linear term over the pre-fields that is the number of items left."""
    hs = remaining(ctx, b, u)
    P = mk('p', b['locs'][1][1] or 'a0')
    h = None
    for m, (q, uq) in hs.items():
        if uq is None:
            continue
        Q = mk('p', q['locs'][1][1] or 'a0')
        for o in uq.outs:
            r = o.ret
            ctx.count('size hints')
            det = path_text(o)
            if r.op == 'agg' and r.a[0] == 'tuple':
                lo, hi = r.a[2]
                judge(ctx, 'the size hint is exact', is_some(hi) and hi.a[2][0] is lo, '%s: size hint bounds' % what, 'size_hint returns %s' % short(r), det, [r])
                r = lo
            r = subst(r, {mk('*', Q): mk('*', P)})
            if isint(r):
                continue
            x = lin0(r)
            if h is not None and x is not h:
                judge(ctx, 'the size hint is exact', False, '%s: len and size_hint differ' % what, 'len and size_hint compute %s and %s' % (short(x), short(h)), det, [x, h])
            h = x
    # zero results only when h <= 0
    for m, (q, uq) in hs.items():
        if uq is None or h is None:
            continue
        Q = mk('p', q['locs'][1][1] or 'a0')
        for o in uq.outs:
            r = o.ret
            if r.op == 'agg' and r.a[0] == 'tuple':
                r = r.a[2][0]
            if isint(r):
                hh = subst(h, {mk('*', P): mk('*', Q)})
                judge(ctx, 'the size hint is exact', r is ZERO and o.facts.leq0(hh, 3), '%s: size hint' % what, '%s returns %s' % (m, short(r)), path_text(o), [r])
    if h is not None:
        return h
    for o in u.outs:
        if o.ret is NONE or (o.ret.op == 'agg' and o.ret.a[0] == 'core::option::Option' and o.ret.a[1] == 0):
            ds = [d for d in o.facts.q if abs(lparts(d)[0]) < 1 << 31 and (lparts(d)[0] > 0 or any(w > 0 for w in lparts(d)[1].values())) and not any_op(d, ('phi', 'payload', 'child', 'len', 'k')) and contains(d, mk('*', P))]
            eqs = [c.a[0] for c, x in o.facts.b.items() if c.op == 'eqz' and x and contains(c, mk('*', P)) and not any_op(c, ('phi', 'payload', 'len', 'k'))]
            if len(ds) == 1:
                return ds[0]
            if not ds and len(eqs) == 1:
                return eqs[0]
    return None

def iteration(ctx, b, u):
    what = opname(ctx, b)
    ctx.count('iterators')
    st0 = None
    h = h_of(ctx, b, u, what)
    if h is None:
        ctx.undec('%s: number of remaining items not recognised' % what)
    for o in u.outs:
        det = path_text(o)
        w = murky(o.ev, o.facts)
        if w:
            ctx.undec('%s: %s' % (what, w))
            continue
        S = State(ctx, b, u, o)
        r = o.ret
        if r.op == 'agg' and r.a[0] == 'core::option::Option' and r.a[1] == 0:
            ctx.count('ends of iteration')
            at_end = (h is not None and o.facts.leq0(h, 3)) or exhausted(u, o, S)
            if h is None and not at_end:
                continue
            judge(ctx, 'iteration ends only when nothing is left', at_end, '%s: ends early' % what, 'the iterator ends although items may be left', det)
            continue
        if not is_some(r):
            ctx.undec('%s: result %s' % (what, short(r)))
            continue
        loads(ctx, u, o, S, what, det)
        v = r.a[2][0]
        if not is_ok(v):
            continue
        v = v.a[2][0]
        ctx.count('item-yielding paths')
        if h is not None:
            h2 = subst(h, S.map())
            good = o.facts.implies(eqz(add(sub_(h2, h), ONE))) is True or sub_(h2, h) is I(-1)
            judge(ctx, 'each item counts once', good, '%s: count of yielded items' % what, 'yielding an item changes the number of remaining items from %s to %s' % (short(h), short(h2)), det, [h2])
        yields(ctx, u, o, S, v, what, det)
    ctors(ctx, b, h, what)

def exhausted(u, o, S):
    """All shards taken and nothing left of the current one."""
    F = o.facts
    shards = left = False
    for d in F.q:
        for s in subterms(d):
            if s.op == 'len' and F.leq0(s) and any(q.op in ('phi',) or q.op == 'fld' for q in subterms(s)):
                shards = True
    for f in S.names:
        p = S.pre(f)
        if F.leq0(p, 2):
            left = True
        if F.leq0(slen(p), 2):
            left = True
    # the same field as a loop leaves it
    for t in set(x for d in F.conds() for x in subterms(d) if x.op == 'phi'):
        if type(t.a[1]) is tuple and t.a[1][0] == 'S' and t.a[1][1] is S.P and t.a[1][-1] in S.names and F.leq0(t, 2):
            left = True
    # child index past the number of children
    for d in F.q:
        if any(s.op == 'fld' and s.a[-1] == terms.CC[0] for s in subterms(d)):
            shards = True
    return shards and left

def shard_at(u, t):
    """('index', node, idx) or ('iter', source, field phi) of a shard node."""
    if t.op == 'child':
        return 'index', t.a[0], t.a[1]
    if t.op == 'elem' and t.a[1] is ZERO:
        return 'iter', t.a[0], None
    if t.op == 'elem':
        return 'iter', t.a[0], t.a[1]
    return None

def loads(ctx, u, o, S, what, det):
    """Shards are loaded one after the other, from the current one on."""
    rule = 'shards are read in order'
    def taken(evs):
        return [x for x in evs if x[0] == 'read_raw']
    top = taken(o.ev)
    lps = [x for x in o.ev if x[0] == 'loop' and any(y[0] == 'read_raw' for c, e in x[3] for y in walk(e))]
    if len(lps) > 1 or len(top) > 1:
        ctx.undec('%s: shards loaded at several places' % what)
        return
    n = ZERO
    for lp in lps:
        info = u.e.loops.get(lp[1])
        n = lp[2]
        for c, e in lp[3]:
            ts = taken(e)
            if len(ts) != 1:
                judge(ctx, rule, False, '%s: shards per step' % what, '%d shards are loaded per step' % len(ts), det)
                return
            if not one_load(ctx, u, S, ts[0][1], info['k'], info, what, det, rule):
                return
    for x in top:
        if not one_load(ctx, u, S, x[1], n, u.e.loops.get(lps[0][1]) if lps else None, what, det, rule):
            return
    # bookkeeping after the call
    idx = index_field(S, lps, top)
    if idx is not None:
        f = idx
        d = sub_(S.after(f), S.pre(f))
        err = not is_ok(o.ret.a[2][0]) if is_some(o.ret) else False
        total = n
        good = sub_(d, n) is ZERO or (top and sub_(d, add(n, ONE)) is ZERO) or o.facts.implies(eqz(sub_(d, n))) is True
        if not err and top:
            good = sub_(d, add(n, ONE)) is ZERO
        judge(ctx, rule, good, '%s: shard position' % what, 'after loading %s shards the shard position moved by %s' % (short(add(n, ONE) if top else n), short(d)), det, [d])

def index_field(S, lps, top):
    for x in list(top) + [y for lp in lps for c, e in lp[3] for y in e if y[0] == 'read_raw']:
        if x[1].op == 'child':
            for f in S.names:
                if contains(x[1].a[1], S.pre(f)):
                    return f
    return None

def one_load(ctx, u, S, node, n, info, what, det, rule):
    q = shard_at(u, node)
    if q is None:
        ctx.undec('%s: shard %s' % (what, short(node)))
        return False
    kind, src, idx = q
    if kind == 'index':
        fs = [f for f in S.names if contains(idx, S.pre(f))]
        if not fs and info is not None:
            ps = [p for p in info['phis'] if contains(idx, p) and info['phis'][p] is not None]
            fs = [f for f in S.names if len(ps) == 1 and info['phis'][ps[0]][0] is S.pre(f)]
            if len(fs) == 1:
                steps = [sub_(bk, ps[0]) for F, bk in info['phis'][ps[0]][1]]
                judge(ctx, rule, idx is ps[0] and all(x is ONE for x in steps), '%s: shard order' % what, 'the shard position moves by %s per loaded shard' % ' or '.join(short(x) for x in steps), det, steps)
                return idx is ps[0] and all(x is ONE for x in steps)
        if len(fs) != 1:
            ctx.undec('%s: shard index %s' % (what, short(idx)))
            return False
        good = sub_(sub_(idx, S.pre(fs[0])), n) is ZERO
        judge(ctx, rule, good, '%s: shard order' % what, 'the %s-th shard loaded by a call is %s' % (short(n), short(idx)), det, [idx])
        return good
    if src.op == 'phi' and info is not None:
        d = info['phis'].get(src)
        if d is None:
            ctx.undec('%s: shards %s' % (what, short(src)))
            return False
        fs = [f for f in S.names if d[0] is S.pre(f)]
        ok = len(fs) == 1 and idx is None and all(bk.op == 'it' and bk.a[1] is src and bk.a[2] is ONE for f, bk in d[1])
        if len(fs) == 1 and idx is None:
            judge(ctx, rule, ok, '%s: shard order' % what, 'the shards are advanced to %s' % ', '.join(short(bk) for f, bk in d[1]), det, [ZERO if bk.op == 'it' and bk.a[1] is src else bk for f, bk in d[1]])
        else:
            ctx.undec('%s: shards %s' % (what, short(src)))
        return ok
    fs = [f for f in S.names if src is S.pre(f)]
    if len(fs) == 1 and idx is None:
        ctx.ob(rule)
        a = S.after(fs[0])
        judge(ctx, rule, a.op == 'it' and a.a[1] is src and a.a[2] is ONE, '%s: shard order' % what, 'after one shard the shards are at %s' % short(a), det, [ZERO if a is src or a.op == 'it' and a.a[1] is src else a])
        return True
    ctx.undec('%s: shards %s' % (what, short(src)))
    return False

def yields(ctx, u, o, S, v, what, det):
    rule = 'an item is the next one of the current shard'
    F = o.facts
    if v.op == 'lazyitem' or v.op == 'item':
        cur, ch = v.a[1], v.a[2]
        if cur.op != 'agg':
            ctx.undec('%s: item %s' % (what, short(v)))
            return
        data, pos = cur.a[2][0], cur.a[2][1]
        data = data.a[0] if data.op == 'rv' else data
        pf = [f for f in S.names if contains(data, S.pre(f))]
        if data.op == 'payload':
            node = data.a[0]
            cnt = mk('dec', 'u64', data, ZERO)
            decs = [x for x in o.ev if x[0] == 'decode' and x[2] is data and x[1] == 'u64']
            judge(ctx, rule, len(decs) == 1 and pos is mk('declen', 'u64', data, ZERO, decs[0][4]), '%s: first item of a shard' % what, 'the first item of a shard is read at %s' % short(pos), det, [pos])
            if len(decs) == 1:
                n = mk('dec', 'u64', data, ZERO, decs[0][4])
                judge(ctx, rule, F.leq0(sub_(ONE, n), 3), '%s: empty shards' % what, 'an item is read from a shard that may be empty', det)
                left = [f for f in S.names if contains(S.after(f), n) and not contains(S.after(f), data) or S.after(f) is sub_(n, ONE) or S.after(f) is n]
                judge(ctx, rule, any(S.after(f) is sub_(n, ONE) for f in S.names), '%s: items left in a new shard' % what, 'after the first item of a shard of %s no field holds the number of items left' % short(n), det, [S.after(f) for f in left])
            ownch = ch.op == 'it' and ch.a[2] is ZERO and any(x.op == 'child' and x.a[0] is node for x in subterms(ch.a[1]))
            judge(ctx, rule, ownch, '%s: children of a new shard' % what, 'the first item of a shard is given the children %s' % short(ch), det, [ch])
            # nothing of the previous shard may be left when the next one is loaded
            old = [f for f in S.names if F.leq0(S.pre(f), 2)]
            judge(ctx, 'a shard is finished before the next', bool(old), '%s: shard abandoned' % what, 'a new shard is loaded although the current one may have items left', det)
            for f in S.names:
                ctx.ob('the new shard is kept')
            keep = any(contains(S.after(f), mk('payload', node)) and S.after(f).op != 'posafter' and not any_op(S.after(f), ('lazyitem',)) for f in S.names)
            judge(ctx, rule, keep, '%s: new shard kept' % what, 'the payload of the new shard is not kept', det)
        else:
            if len(pf) != 1:
                ctx.undec('%s: item %s' % (what, short(v)))
                return
            pp = [f for f in S.names if pos is S.pre(f)]
            cc = [f for f in S.names if ch is S.pre(f)]
            if len(pp) != 1 or len(cc) != 1:
                judge(ctx, rule, False, '%s: stream position' % what, 'the next item is read at %s with the children %s' % (short(pos), short(ch)), det, [pos, ch])
                return
            lf = [f for f in S.names if F.leq0(sub_(ONE, S.pre(f)), 2)]
            judge(ctx, rule, bool(lf), '%s: item of a finished shard' % what, 'an item is read although the current shard may have none left', det)
            judge(ctx, rule, not lf or any(S.after(f) is sub_(S.pre(f), ONE) for f in lf), '%s: items left in the shard' % what, 'after an item the number of items left goes from %s to %s' % (short(S.pre(lf[0])) if lf else '', short(S.after(lf[0])) if lf else ''), det, [S.after(f) for f in lf])
        # the stream moves on by exactly this item
        judge(ctx, rule, any(S.after(f) is mk('posafter', v, pos) for f in S.names), '%s: stream position after an item' % what, 'after an item the stream position is not the end of that item', det)
        judge(ctx, rule, any(S.after(f) is mk('after', v, ch) for f in S.names), '%s: children after an item' % what, 'after an item its children are not taken', det)
        return
    if v.op == 'elem':
        seq_, i = v.a
        fs = [f for f in S.names if contains(seq_, S.pre(f)) or (seq_.op == 'phi' and len(seq_.a) > 1 and str(f) == str(seq_.a[1][-1]))]
        if seq_.op in ('phi', 'fld') and fs:
            f = fs[0]
            judge(ctx, rule, i is ZERO, '%s: item of the shard' % what, 'item %s of what is left of the shard is returned' % short(i), det, [i])
            a = S.after(f)
            judge(ctx, rule, a.op == 'it' and a.a[1] is seq_ and a.a[2] is add(i, ONE), '%s: items left in the shard' % what, 'after an item the rest of the shard is %s' % short(a), det, [ZERO if a.op == 'it' and a.a[1] is seq_ or a is seq_ else a])
            if seq_.op == 'phi':
                info = u.e.loops.get(seq_.a[0])
                d = info['phis'].get(seq_) if info else None
                if d is None:
                    return
                judge(ctx, rule, d[0] is S.pre(f), '%s: current shard' % what, 'iteration continues with %s' % short(d[0]), det, [d[0]])
                for F2, bk in d[1]:
                    its = [x for x in subterms(bk) if x.op == 'items']
                    good = bk.op == 'it' and bk.a[2] is ZERO and len(its) == 1 and bk.a[1] is its[0]
                    if good:
                        cur, ch = its[0].a[1], its[0].a[2]
                        node = cur.a[2][0].a[0].a[0] if cur.op == 'agg' and cur.a[2][0].op == 'rv' and cur.a[2][0].a[0].op == 'payload' else None
                        good = node is not None and node.op == 'child' and cur.a[2][1] is ZERO and ch.op == 'it' and ch.a[2] is ZERO and any(x.op == 'child' and x.a[0] is node for x in subterms(ch.a[1]))
                    judge(ctx, rule, good, '%s: new shard' % what, 'a new shard is %s' % short(bk), det, [bk])
                    judge(ctx, 'a shard is finished before the next', F2.leq0(slen(seq_), 2), '%s: shard abandoned' % what, 'a new shard is loaded although the current one may have items left', det)
            return
        if seq_.op == 'items':
            ctx.undec('%s: item %s' % (what, short(v)))
            return
    ctx.undec('%s: item %s' % (what, short(v)))

def ctors(ctx, b, h, what):
    """A new iterator stands at the first item of the first shard and knows the recorded number of items."""
    T = ctx.fx.T[b['self']]
    names = fields(ctx, b)
    P = mk('p', b['locs'][1][1] or 'a0')
    for c in read_rows(ctx):
        if c['m'] == 'next' or not (c.get('self') is not None):
            continue
        u = read_unit(ctx, c)
        if u is None:
            continue
        # match by element type
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            v = o.ret.a[2][0]
            if v.op != 'agg' or v.a[0] != T.get('def') or v.a[1] != 0:
                continue
            cw = opname(ctx, c)
            det = path_text(o)
            ctx.count('iterator constructors')
            if murky(o.ev, o.facts):
                ctx.undec('%s: constructor' % cw)
                continue
            nodes = {x[1] for x in o.ev if x[0] == 'read_raw'}
            st = dict(zip(names, v.a[2]))
            if h is not None:
                hv = subst(h, {terms._fld(mk('*', P), -1, f): x for f, x in st.items()})
                tot = [recorded(n) for n in nodes]
                if hv is ZERO or o.facts.leq0(hv, 3):
                    good = any(o.facts.leq0(slen(mk('payload', n)), 3) or o.facts.leq0(recorded(n), 3) for n in nodes)
                    judge(ctx, 'a new iterator knows the recorded number of items', good, '%s: invented emptiness' % cw, 'an iterator over nothing is created although the payload may not be empty', det)
                else:
                    good = any(hv is t or o.facts.implies(eqz(sub_(hv, t))) is True for t in tot)
                    judge(ctx, 'a new iterator knows the recorded number of items', good, '%s: recorded number of items' % cw, 'a new iterator expects %s items' % short(hv), det, [hv])
            # position
            start_at_zero(ctx, b, st, nodes, cw, det, o)

def start_at_zero(ctx, b, st, nodes, cw, det, o):
    its = [(f, x) for f, x in st.items() if x.op == 'it']
    for f, x in its:
        ch = [s for s in subterms(x.a[1]) if s.op == 'child'] if isinstance(x.a[1], Tm) else []
        if ch:
            judge(ctx, 'iteration starts with the first shard', x.a[2] is ZERO, '%s: first shard' % cw, 'iteration starts with shard %s' % short(x.a[2]), det, [x.a[2]])
        else:
            empty = slen(x.a[1]) is ZERO or sub_(slen(x.a[1]), x.a[2]) is ZERO
            judge(ctx, 'iteration starts with the first shard', empty, '%s: initial items' % cw, 'a new iterator already holds %s' % short(x), det, [x])
    u = read_unit(ctx, b)
    used = set()
    for q in u.outs:
        S = State(ctx, b, u, q)
        for x in walk(q.ev):
            if x[0] == 'read_raw' and x[1].op == 'child':
                for f in S.names:
                    if contains(x[1].a[1], S.pre(f)):
                        used.add(f)
            if x[0] == 'read_lazy_from_stream':
                for f in S.names:
                    if x[2].op == 'agg' and x[2].a[2][1] is S.pre(f):
                        for d in q.facts.q:
                            for g in S.names:
                                if d is sub_(ONE, S.pre(g)):
                                    used.add(g)
    for f in used:
        judge(ctx, 'iteration starts with the first shard', st[f] is ZERO or o.facts.leq0(st[f], 2), '%s: initial %s' % (cw, f), 'a new iterator starts with %s = %s' % (f, short(st[f])), det, [st[f]])

def lengths(ctx):
    for b in read_rows(ctx):
        if b['m'] not in ('len', 'is_empty') or b.get('tr') or 'Map' in self_of(ctx, b):
            continue
        u = read_unit(ctx, b)
        if u is None:
            continue
        what = opname(ctx, b)
        for o in u.outs:
            if failures(o):
                continue
            nodes = {x[1] for x in o.ev if x[0] == 'read_raw'}
            if len(nodes) != 1:
                ctx.undec('%s: %d payloads read' % (what, len(nodes)))
                continue
            n = nodes.pop()
            r = okv_(o.ret)
            ctx.count('length paths')
            short_ = o.facts.leq0(sub_(slen(mk('payload', n)), I(7)), 3)
            want = recorded(n)
            if b['m'] == 'is_empty':
                good = r is eqz(want) or (short_ and r in (ONE, mk('i', 1), eqz(ZERO))) or (isint(r) and short_)
                if not good and isint(r):
                    good = o.facts.implies(eqz(want)) is (r is not ZERO)
            else:
                good = r is want or (short_ and r is ZERO) or (r is ZERO and o.facts.leq0(want, 2))
            judge(ctx, 'the length is the recorded number of items', good, '%s: recorded length' % what, '%s returns %s' % (what, short(r)), path_text(o), [r])

def okv_(t):
    return t.a[2][0] if is_ok(t) else t
