"""C10: bulk loads initialise every slot exactly once, inside the buffer, before the buffer becomes a vector."""
import random
from core import *
from core import walk
import units
import rules_write as W
import rules_vec as E
import rules_derive as D
from rules_write import judge, short
from rules_err import read_rows, read_unit, opname, self_of, okv

# ---------------------------------------------------------------- the jobs of a fill loop
def nest(J):
    """A sequence as a loop nest: [(count, index), ...] outermost first, and the element; None if it is not of that form."""
    lv = []
    ps = pieces(J)
    while True:
        if len(ps) != 1:
            return None
        p = ps[0]
        if p.op == 'b':
            return lv, p.a[0]
        if p.op != 'rep' or len(p.a[2]) != 1 or p.a[2][0][0]:
            return None
        lv.append((p.a[0], p.a[1]))
        ps = p.a[2][0][1]

def nest_of(k, count, ts):
    """Replace J[k].i in the terms of a loop body: (levels, terms)."""
    es = {s for t in ts for s in subterms(t) if s.op == 'elem' and s.a[0].op == 'seq' and contains(s.a[1], k)}
    if not es:
        return [(count, k)], list(ts), None
    if len(es) != 1:
        return None
    e = es.pop()
    J = e.a[0]
    n = nest(J)
    off = sub_(e.a[1], k)
    if n is None or (off is ZERO and slen(J) is not count) or contains(off, k):
        return None
    if off is not ZERO:
        J = (off, count, slen(J))           # only the jobs off .. off + count are run
    m = {}
    for t in ts:
        for s in subterms(t):
            if s.op == 'fld' and s.a[0] is e:
                m[s] = terms._fld(n[1], *s.a[1:])
    ts = [subst(t, m) if m else t for t in ts]
    if any(contains(t, e) for t in ts):
        ts = [subst(t, {e: n[1]}) for t in ts]
    return n[0], ts, J

def prefix(u, lv, start, step):
    """Does start run through 0, step, step+step', ... over the loop nest?  Returns the term it ends with, or None."""
    n, i = lv[-1]
    if not ZERO is sub_(sub_(subst(start, {i: add(i, ONE)}), start), step):
        return None
    G, end = subst(start, {i: ZERO}), subst(start, {i: n})
    if len(lv) == 1:
        return end if G is ZERO else None
    if len(lv) != 2:
        return None
    n1, i1 = lv[0]
    if G.op != 'phi':
        # closed form over the outer loop
        return subst(end, {i1: sub_(n1, ONE)}) if subst(G, {i1: ZERO}) is ZERO and subst(G, {i1: add(i1, ONE)}) is end else None
    info = u.e.loops.get(G.a[0])
    p = info['phis'].get(G) if info else None
    if p is None or p[0] is not ZERO:
        return None
    for f, back in p[1]:
        if subst(back, {info['k']: i1}) is not end:
            return None
    return G

class Sim:
    """Runs the extracted recurrences on a concrete run table."""
    def __init__(self, u, runs, cc, total):
        self.u, self.runs, self.cc, self.total = u, runs, cc, total
    def val(self, t, env):
        if t in env:
            return env[t]
        o = t.op
        if o == 'i':
            return t.a[0]
        if o == 'lin':
            c, m = lparts(t)
            return c + sum(w * self.val(a, env) for a, w in m.items())
        if o == 'mul':
            r = 1
            for q in E.mul_args(t):
                r *= self.val(q, env)
            return r
        if o in ('min', 'max', 'div', 'rem', 'cdiv'):
            x, y = [self.val(q, env) for q in t.a[:2]]
            if o in ('div', 'rem', 'cdiv') and y == 0:
                raise E.Unknown()
            return {'min': min, 'max': max, 'div': lambda a, b: a // b, 'rem': lambda a, b: a % b, 'cdiv': lambda a, b: -(-a // b)}[o](x, y)
        if o == 'ssub':
            return max(0, self.val(t.a[0], env))
        if o == 'len' and t.a[0].op == 'dec' and str(t.a[0].a[0]).startswith('alloc::vec::Vec<'):
            return len(self.runs)
        if o == 'fld' and t.a[0].op == 'elem' and t.a[0].a[0].op == 'dec':
            i = self.val(t.a[0].a[1], env)
            f = self.field(t)
            if f is None or not 0 <= i < len(self.runs):
                raise E.Unknown()
            return self.runs[i][f]
        if o == 'fld' and t.a[-1] == terms.CC[0] and not any_op(t, ('child',)):
            return self.cc
        if o == 'rd' and self.total is not None and t.a[1] == 8:
            return self.total
        raise E.Unknown()
    def field(self, t):
        n = t.a[-1]
        if isinstance(n, int):
            return n
        for r in self.u.e.fx.T.values():
            if r.get('k') == 'adt' and r['s'] == inner(t.a[0].a[0].a[0]):
                fs = [f[0] for f in r['vs'][0]['f']]
                return fs.index(n) if n in fs else None

def inner(s):
    return s[s.index('<') + 1:s.rindex('>')] if '<' in s else s

def simulate(u, lv, job, sim):
    """The jobs of a nest on a concrete run table, and the values of the outer loop's variables after it."""
    out = []
    phis = {s for t in list(job) + [n for n, i in lv] for s in subterms(t) if s.op == 'phi'}
    lids = {p.a[0] for p in phis}
    if len(lids) > 1 or len(lv) > 2:
        raise E.Unknown()
    info = u.e.loops.get(lids.pop()) if lids else None
    env = {}
    if info:
        for p, d in info['phis'].items():
            if d is None or len(d[1]) != 1:
                continue
            try:
                env[p] = sim.val(d[0], {})
            except E.Unknown:
                pass
    n1, i1 = lv[0]
    for a in range(sim.val(n1, env)):
        if len(out) > 5000:
            raise E.Unknown()
        e = dict(env)
        e[i1] = a
        if info:
            e[info['k']] = a
        if len(lv) == 1:
            out.append(tuple(sim.val(t, e) for t in job))
        else:
            n0, i0 = lv[1]
            for b in range(sim.val(n0, e)):
                e[i0] = b
                out.append(tuple(sim.val(t, e) for t in job))
        if info:
            nx = {}
            for p, d in info['phis'].items():
                if p in env:
                    try:
                        nx[p] = sim.val(d[1][0][1], e)
                    except E.Unknown:
                        pass
            env = nx
    return out, env

TABLES = [[(1, 1)], [(3, 1)], [(2, 2)], [(2, 2), (1, 1)], [(3, 2), (2, 3), (1, 1)], [(0, 1), (2, 1)], [(4, 3), (4, 1), (1, 1)], [(2, 0), (3, 2)], [(5, 1), (0, 2), (5, 1)], []]

def counterexample(u, o, lv, job, N, part=None):
    """A run table for which the jobs (shard, start, count) do not tile 0..N although the path's conditions hold."""
    for runs in TABLES:
        for extra in (0, 1):
            cc = sum(r for c, r in runs) + extra
            real = sum(c * r for c, r in runs)
            for total in (real, real + 1, max(0, real - 1)):
                sim = Sim(u, runs, cc, total)
                try:
                    jobs, env = simulate(u, lv, job, sim)
                    if part:
                        env[part[2]] = len(jobs)
                        a = sim.val(part[0], env)
                        jobs = jobs[a:a + max(0, sim.val(part[1], env))]
                    n = sim.val(N, env)
                except E.Unknown:
                    continue
                ok = True
                for d in o.facts.q:
                    try:
                        ok = ok and sim.val(d, env) <= 0
                    except E.Unknown:
                        pass
                for c, x in o.facts.b.items():
                    if c.op == 'eqz':
                        try:
                            ok = ok and (sim.val(c.a[0], env) == 0) == x
                        except E.Unknown:
                            pass
                if not ok:
                    continue
                at, bad, seen = 0, None, set()
                for s, a, c in sorted(jobs, key=lambda q: q[1]):
                    if c == 0:
                        continue
                    if a != at:
                        bad = 'slots %d..%d are %s' % (min(a, at), max(a, at), 'written twice' if a < at else 'never written')
                        break
                    if s in seen:
                        bad = 'shard %d is read twice' % s
                        break
                    seen.add(s)
                    at = a + c
                if bad is None and at != n:
                    bad = 'slots %d..%d are %s' % (min(at, n), max(at, n), 'outside the buffer' if at > n else 'never written')
                if bad is None:
                    want, sh_, at = set(), 0, 0
                    for c, r in runs:
                        for q in range(r):
                            if c:
                                want.add((sh_, at, c))
                            sh_, at = sh_ + 1, at + c
                    got = {j for j in jobs if j[2]}
                    if got != want:
                        d = sorted(got - want) or sorted(want - got)
                        bad = 'shard %d fills the slots %d..%d, which belong to another shard' % (d[0][0], d[0][1], d[0][1] + d[0][2])
                if bad:
                    return 'with the runs %s and a recorded total of %d, %s' % (runs, total, bad)
    return None

# ---------------------------------------------------------------- buffers
def base_off(p):
    """(base, element offset) of a raw pointer."""
    off = ZERO
    while p.op in ('ptr', 'ptrof', 'addr'):
        if p.op == 'ptr':
            off = add(off, p.a[1])
        p = p.a[0]
    return p, off

def same_buffer(y, ptr):
    p = base_off(ptr)[0]
    return p is y[1] or p.op == 'ref' and y[1].op == 'ref' and p.a[0] == y[1].a[0]

def holds(facts, a, b):
    return a is b or facts.implies(eqz(sub_(a, b))) is True

def lens(ctx, u, o, what, det):
    """set_len only within reserved room."""
    for x in walk(o.ev):
        if x[0] == 'set_len':
            n, ty = x[3], x[5]
            facts = o.facts
            good = any(a.op == 'reserved' and a.a[0] == ty and (a.a[1] is n or facts.leq0(sub_(n, a.a[1]), 3)) for a in facts.b) or facts.leq0(sub_(n, slen(x[2])), 3)
            judge(ctx, 'a length is only set within reserved room', good, '%s: length beyond the reserved room' % what, 'the length is set to %s although no such room is reserved' % short(n), det, [n])
            if 'MaybeUninit' not in ty:
                judge(ctx, 'uninitialised slots are not typed as values', False, '%s: set_len on Vec<%s>' % (what, 'T'), 'a Vec<%s> has its length set before its items are initialised' % ty, det)

def buffers(ctx, u, o, what, det):
    """Every vector assembled from a raw buffer is completely initialised on this path."""
    evs = list(o.ev)
    for at, x in enumerate(evs):
        if x[0] not in ('vec_from_raw', 'assume_init'):
            continue
        ctx.count('buffers turned into vectors')
        if x[0] == 'assume_init':
            ctx.undec('%s: assume_init' % what)
            continue
        ptr, n, cap = x[1]
        buf = x[4]
        base, off = base_off(ptr)
        if buf.op != 'uninitvec' and buf.op != 'seq':
            ctx.undec('%s: buffer %s' % (what, short(buf)))
            continue
        N = slen(buf)
        judge(ctx, 'the vector is the buffer', off is ZERO and holds(o.facts, n, N), '%s: vector length' % what, 'the vector has %s items, the buffer %s' % (short(n), short(N)), det, [n, off])
        ty = x[3]
        lens_ = [y for y in walk(evs[:at]) if y[0] == 'set_len' and same_buffer(y, ptr)]
        judge(ctx, 'slots keep their type', all(inner(y[5]) == ty or y[5] == ty for y in lens_), '%s: buffer of another type' % what, 'a buffer of %s becomes a Vec<%s>' % (', '.join(y[5] for y in lens_), ty), det)
        okcap = cap.op == 'cap' or cap.op == 'call' or any(a.op == 'reserved' and holds(o.facts, a.a[1], cap) for a in o.facts.b)
        judge(ctx, 'the vector is the buffer', okcap, '%s: vector capacity' % what, 'the vector is given the capacity %s' % short(cap), det, [cap])
        # fills before this point
        fills, loops = [], []
        for y in evs[:at]:
            if y[0] == 'read_into_slice':
                fills.append(y)
            elif y[0] == 'loop' and any(z[0] in ('read_into_slice', 'initslot', 'rawwrite', 'rawcopy') for c, e in y[3] for z in walk(e)):
                loops.append(y)
        if o.facts.leq0(N, 3):
            continue
        rule = 'a buffer is filled before it becomes a vector'
        if not fills and not loops:
            judge(ctx, rule, any(y[0] in ('rawcopy', 'rawwrite', 'initslot') for y in evs[:at]), '%s: never filled' % what, 'a buffer of %s uninitialised slots becomes a vector' % short(N), det, [N])
            continue
        if loops and not fills and len(loops) == 1:
            fill_loop(ctx, u, o, loops[0], N, what, det)
        elif len(fills) == 1 and not loops:
            f = fills[0]
            nr = mk('nread', f[1], f[2], f[3], slen(f[5]))
            whole = holds(o.facts, slen(f[5]), N)
            if not whole:
                ctx.undec('%s: fills %s of %s' % (what, short(f[5]), short(N)))
                continue
            judge(ctx, rule, holds(o.facts, nr, N), '%s: partly filled' % what, 'a buffer of %s slots becomes a vector although the reader may have filled fewer' % short(N), det, [N])
        else:
            ctx.undec('%s: %d fills and %d fill loops' % (what, len(fills), len(loops)))

def fill_loop(ctx, u, o, lp, N, what, det):
    info = u.e.loops.get(lp[1])
    k, count = info['k'], lp[2]
    rule = 'every slot is filled by its own shard'
    for tag, cnt in info['exits']:
        if tag == 'end' and cnt is not None and cnt is not count:
            ctx.undec('%s: fill loop ends after %s' % (what, short(cnt)))
            return
    if len(lp[3]) != len(info['backs']):
        ctx.undec('%s: fill loop' % what)
        return
    for (c, ev), bk in zip(lp[3], info['backs']):
        rs = [x for x in ev if x[0] == 'read_into_slice']
        inner_ = [x for x in ev if x[0] == 'loop' and any(z[0] in ('read_into_slice', 'initslot', 'rawwrite') for q, e in x[3] for z in walk(e))]
        if inner_ or len(rs) > 1:
            ctx.undec('%s: nested fill loops' % what)
            return
        F = bk.facts
        if not rs:
            # a job may be skipped only when it has nothing to fill
            sl = [x for x in ev if x[0] in ('initslot', 'rawwrite', 'rawcopy')]
            ks = [x for x in ev if x[0] == 'raw_slice']
            if sl:
                ctx.undec('%s: slots written directly' % what)
                return
            js = {s for a in list(F.q) + list(F.b) for s in subterms(a) if s.op == 'fld' and s.a[0].op == 'elem' and s.a[0].a[1] is k and F.leq0(s, 2)}
            if js:
                continue
            judge(ctx, rule, False, '%s: shard skipped' % what, 'a shard is skipped although its slots count as filled', det)
            return
        x = rs[0]
        raw = [y for y in ev if y[0] == 'raw_slice']
        if len(raw) != 1 or not (x[4].op == 'rawslice' or contains(x[4], 'rawslice')):
            ctx.undec('%s: shards are read into %s' % (what, short(x[4])))
            return
        base, start = base_off(raw[0][1])
        cnt = raw[0][2]
        nr = mk('nread', x[1], x[2], x[3], slen(x[5]))
        src = x[2].a[2][0] if x[2].op == 'agg' else x[2]
        ch = [s for s in subterms(src) if s.op == 'child']
        if len(ch) != 1:
            ctx.undec('%s: shard source %s' % (what, short(src)))
            return
        judge(ctx, 'a shard with the wrong number of items is an error', holds(F, nr, cnt), '%s: items of a shard not counted' % what,
              'a shard that fills fewer slots than %s is accepted' % short(cnt), det, [])
        r = nest_of(k, count, [ch[0].a[1], start, cnt])
        if r is None:
            ctx.undec('%s: jobs %s' % (what, short(start)))
            return
        lv, (idx, st, cn), J = r
        ctx.ob(rule)
        part = J if isinstance(J, tuple) else None
        e1, e2 = (None, None) if part else (prefix(u, lv, st, cn), prefix(u, lv, idx, ONE))
        if e1 is not None and e2 is not None and holds(o.facts, e1, N):
            ctx.count('fill loops proved to tile their buffer')
            continue
        why = counterexample(u, o, lv, (idx, st, cn), N, part)
        if why:
            ctx.violate('%s: slots of shards' % what, 'shard %s fills the slots from %s, %s of them, of %s; %s' % (short(idx), short(st), short(cn), short(N), why), det)
        else:
            ctx.undec('%s: shard %s fills %s + %s' % (what, short(idx), short(st), short(cn)))

# ---------------------------------------------------------------- slots
def slots(ctx):
    """A reader into a slice that reports n items has initialised the slots 0..n, each once."""
    rows = [b for b in ctx.fx.F.values() if b['m'] == 'read_into_slice' and b.get('tr') == units.ITEM]
    for b in sorted(rows, key=lambda b: self_of(ctx, b)):
        u = ctx.unit(b, ('traits', 'node', 'root', 'decode'), keep=((self_of(ctx, b), 'read_into_slice'),), split_paths=True)
        if u is None:
            continue
        what = opname(ctx, b)
        P = mk('p', b['locs'][3][1] or 'a2')
        Ld = slen(mk('*', P))
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            ctx.count('slice readers')
            det = path_text(o)
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                continue
            n = o.ret.a[2][0]
            F = o.facts
            if n is not Ld and n.op == 'len' and holds(F, n, Ld):
                n = Ld
            copies = [x for x in o.ev if x[0] == 'rawcopy']
            single = [x for x in o.ev if x[0] in ('initslot', 'rawwrite')]
            loops = [x for x in o.ev if x[0] == 'loop' and any(z[0] in ('initslot', 'rawwrite', 'rawcopy') for c, e in x[3] for z in walk(e))]
            rule = 'reported items are initialised slots'
            if F.leq0(n, 3) and not copies and not single and not loops:
                ctx.ob(rule)
                continue
            if len(copies) == 1 and not loops and not single:
                src, dst, cnt = copies[0][1]
                if dst.op != 'ptr' or src.op != 'ptr':
                    ctx.undec('%s: copy' % what)
                    continue
                slot = inner(ctx.fx.T[b['locs'][3][0]]['s']) if 'MaybeUninit<' in ctx.fx.T[b['locs'][3][0]]['s'] else None
                if slot is not None:
                    judge(ctx, 'slots keep their type', copies[0][3] == slot or {copies[0][3], slot} == {'u8', 'i8'}, '%s: bytes copied as values' % what, '%s values are copied into slots of %s' % (copies[0][3], slot), det)
                v = src.a[0].a[0] if src.a[0].op == 'rv' else src.a[0]
                judge(ctx, rule, dst.a[1] is ZERO and contains(dst.a[0], P) and holds(F, cnt, n), '%s: slots copied' % what, '%s slots are copied to offset %s, %s are reported' % (short(cnt), short(dst.a[1]), short(n)), det, [cnt, dst.a[1], n])
                judge(ctx, 'copies stay inside the buffer', F.leq0(sub_(cnt, Ld), 3), '%s: copy beyond the destination' % what, '%s items are copied into a destination of %s without a check' % (short(cnt), short(Ld)), det, [cnt])
                judge(ctx, 'copies stay inside the source', F.leq0(sub_(add(cnt, src.a[1]), slen(v)), 3), '%s: copy beyond the source' % what, '%s items are copied from %s bytes' % (short(cnt), short(slen(v))), det, [cnt, slen(v)])
                continue
            if len(loops) != 1 or copies or single:
                judge(ctx, rule, not (not loops and not copies and not single), '%s: no slot written' % what, '%s slots are reported as filled although none is written' % short(n), det, [n])
                if loops or copies or single:
                    ctx.undec('%s: slots written by %d loops' % (what, len(loops)))
                continue
            info = u.e.loops.get(loops[0][1])
            trips = [c for tag, c in info['exits'] if tag != 'stop']
            cnt = loops[0][2]
            judge(ctx, rule, holds(F, n, cnt) if cnt is not None else None, '%s: slots written' % what, '%s slots are written, %s reported' % (short(cnt), short(n)), det, [n, cnt])
            for c, ev in loops[0][3]:
                st = [x for x in walk(ev) if x[0] in ('initslot', 'rawwrite')]
                k = info['k']
                if len(st) != 1:
                    judge(ctx, rule, False, '%s: slots per item' % what, '%d slots are written per reported item when %s' % (len(st), ' and '.join(sh(q, 80) for q in c[-4:])), det)
                    continue
                r = st[0][1] if st[0][0] == 'initslot' else st[0][1][0]
                pos = slot_pos(r, P)
                if pos is None:
                    ctx.undec('%s: slot %s' % (what, short(r)))
                    continue
                judge(ctx, rule, pos is k, '%s: slot of an item' % what, 'item %s is written to slot %s' % (short(k), short(pos)), det, [mk('before', pos.a[1]) if pos.op == 'phi' else pos])
    ctx.floor('slice readers', 12)

def slot_pos(r, P):
    if r.op == 'ref' and r.a[0][0] == 'S' and r.a[0][1] is P and len(r.a[1]) == 1:
        q = r.a[1][0]
        if isinstance(q, tuple) and q[0] == 'ix':
            return q[1]
        if isinstance(q, Tm) and q.op == 'ix':
            return q.a[0]
    if r.op == 'ptr' and contains(r.a[0], P):
        return r.a[1]
    return None

def c10(ctx):
    for b in read_rows(ctx):
        u = read_unit(ctx, b)
        if u is None:
            continue
        raw = [o for o in u.outs if any(x[0] in ('set_len', 'vec_from_raw', 'assume_init') for x in walk(o.ev))]
        if not raw:
            continue
        n = opname(ctx, b)
        ctx.count('operations with raw buffers')
        for o in raw:
            det = path_text(o)
            lens(ctx, u, o, n, det)
            if is_err(o.ret):
                continue
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (n, w))
                continue
            buffers(ctx, u, o, n, det)
    slots(ctx)
