"""Sharded maps: what is stored for every entry, what loading and looking up reads (C18, C19)."""
from core import *
from core import walk
from engine import Outcome, St
import domain, terms
from models import NONE, some
import rules_write as W
import rules_visit as V
import rules_derive as D
from rules_write import judge, short, rep1, is_some

HM = 'std::collections::hash::map::HashMap'
JOB = D.JOB

def strip(v):
    while v.op == 'rv':
        v = v.a[0]
    return v

def args_of(ctx, ty):
    return [ctx.fx.T[a]['s'] for a in ctx.fx.T[ty].get('args') or [] if isinstance(a, int) and a in ctx.fx.T]

def job_row(ctx, v, ok):
    """The execute row for a job value; ok(list of type argument strings) selects the instance."""
    v = strip(v)
    if v.op != 'agg':
        return None
    rows = [b for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'execute' and ctx.fx.T[b['self']].get('def') == v.a[0]]
    if any(strip(x).op == 'agg' and job_types(ctx, strip(x).a[0]) for x in v.a[2]):
        inner = [strip(x).a[0] for x in v.a[2] if strip(x).op == 'agg']
        rows = [b for b in rows if any(ctx.fx.T[a].get('def') in inner and ok(args_of(ctx, a)) for a in ctx.fx.T[b['self']].get('args') or [] if isinstance(a, int) and a in ctx.fx.T)]
    else:
        rows = [b for b in rows if ok(args_of(ctx, b['self']))]
        if not rows:
            rows = [b for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'execute' and ctx.fx.T[b['self']].get('def') == v.a[0] and not args_of(ctx, b['self'])]
    return rows[0] if len(rows) == 1 else None

def job_types(ctx, name):
    key = ('jobtypes',)
    if key not in ctx.cache:
        ctx.cache[key] = {ctx.fx.T[b['self']].get('def') for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'execute'}
    return name in ctx.cache[key]

def contents(ctx, u, o, v, ok, what):
    """[(facts, pieces)] of every successful execution of job value v."""
    row = job_row(ctx, v, ok)
    if row is None:
        ctx.undec('%s: job %s not recognised' % (what, short(v)))
        return None
    try:
        outs = u.e.run_inst(row['inst'], [mk('rv', strip(v)), mk('p', 'refs')], o.st.copy())
    except Exception as x:
        ctx.undec('%s: job: %s' % (what, x))
        return None
    ctx.analysed.add(row['p'])
    return [(q, q.ret.a[2][0]) for q in outs if is_ok(q.ret)]

def deref(v):
    return v.a[0] if v.op == 'rv' else v if v.op == '*' else mk('*', v)

def map_rows(ctx, m):
    r = []
    for b in ctx.fx.F.values():
        if b['m'] == m and b.get('self') is not None and ctx.fx.T[b['self']].get('def') == HM and (b.get('tr') or '').startswith('parcode'):
            a = args_of(ctx, b['self'])
            r.append((b, a[0], a[1]))
    return sorted(r, key=lambda x: x[1:])

def hashed(t, key):
    """The hash term with the key replaced by a placeholder, or None if it does not only depend on the key."""
    h = subst(t, {key: mk('x_key')})
    bad = [s for s in subterms(h) if s.op in ('p', '*', 'phi', 'k', 'fld', 'elem') or s.op == 'ret']
    return None if bad else h

def value_encoding(ctx, p, item, Vt):
    """'full' (serde encoding of the value), 'shallow' or None for the piece that stores the value of a map item."""
    v = deref(terms._fld(item, -1, 1))
    if p.op == 'enc' and p.a[0].lstrip('&') == Vt and (p.a[1] is v or deref_all(p.a[1]) is deref_all(v)):
        return 'full', p.a[2]
    if p.op == 'shallow' and deref_all(p.a[1]) is deref_all(v):
        t = p.a[0]
        if t == Vt:
            return 'shallow', None
        if t.lstrip('&') == Vt:
            b = D.method(ctx, D.VIS, 'serialize_shallow', t)
            u = ctx.unit(b, ('traits',), ((t, 'serialize_shallow'),)) if b is not None else None
            kinds = set()
            for o in (u.outs if u else ()):
                if is_ok(o.ret):
                    ps = D.appended_to(o, b, 1)
                    base = D.selfval(b)
                    if len(ps) == 1 and ps[0].op == 'enc' and ps[0].a[0].lstrip('&') == Vt and deref_all(ps[0].a[1]) is deref_all(base):
                        kinds.add(('full', ps[0].a[2]))
                    elif len(ps) == 1 and ps[0].op == 'shallow' and ps[0].a[0] == Vt and deref_all(ps[0].a[1]) is deref_all(base):
                        kinds.add(('shallow', None))
                    else:
                        return None
            if len(kinds) == 1:
                return kinds.pop()
    return None

def deref_all(t):
    while t.op in ('*', 'rv'):
        t = t.a[0]
    return t

def shard_spec(ctx, B, ps, Kt, Vt, what, det, H):
    """Checks the pieces of a shard against: count, padding, hashes, offsets, records of the items of B."""
    P = mk('p', 'bucket')
    ps = [subst(p, {B: P}) for p in ps]
    B = P
    n = slen(B)
    k = mk('k', 'exp')
    item = elem(B, k)
    key = deref(terms._fld(item, -1, 0))
    if len(ps) < 8:
        judge(ctx, 'a shard is count, padding, hashes, offsets, records', False, '%s: shard parts' % what, 'a shard is written as %s' % short(tuple(ps)), det, ps)
        return None
    good = ps[0] is mk('le', 4, n) and all(isbyte(p, 0) for p in ps[1:5]) and len(ps) == 8
    judge(ctx, 'a shard is count, padding, hashes, offsets, records', good, '%s: shard header' % what, 'a shard begins with %s' % short(tuple(ps[:5])), det, ps[:5])
    if not good:
        return None
    hs, offs, recs = ps[5:8]
    cfg = enc = None
    # records
    if recs.op == 'rep' and recs.a[0] is n and len(recs.a[2]) == 1 and not recs.a[2][0][0]:
        pk = [subst(q, {recs.a[1]: k}) for q in recs.a[2][0][1]]
        if len(pk) == 2 and pk[0].op == 'enc' and pk[0].a[0].lstrip('&') == Kt and deref_all(pk[0].a[1]) is deref_all(key):
            cfg = pk[0].a[2]
            enc = value_encoding(ctx, pk[1], item, Vt)
        judge(ctx, 'a record is the key and the value of one entry', enc is not None, '%s: record' % what, 'a record is written as %s' % short(tuple(pk)), det, pk)
    else:
        judge(ctx, 'every entry of the bucket has a record', False, '%s: records' % what, 'the records are %s' % short(recs), det, [recs])
    # hashes
    h = None
    if hs.op == 'rep' and hs.a[0] is n and len(hs.a[2]) == 1 and len(hs.a[2][0][1]) == 1:
        q = subst(hs.a[2][0][1][0], {hs.a[1]: k})
        if q.op == 'le' and q.a[0] == 8:
            h = hashed(q.a[1], key)
    judge(ctx, 'a hash belongs to the key of its entry', h is not None, '%s: hashes' % what, 'the hashes are %s' % short(hs), det, [hs])
    if h is not None and H is not None and ctx.prop != 'C19':
        judge(ctx, 'one hash function everywhere', h is H, '%s: hash function' % what, 'the stored hash is %s, shards are selected by %s' % (short(h), short(H)), det, [h])
    # offsets: the length of all earlier records
    if enc is not None:
        j = mk('k', 'exp2')
        ritem = tuple(subst(q, {recs.a[1]: j}) for q in recs.a[2][0][1])
        want = rep1(mkrep(n, k, (((), (mk('le', 4, slen(mk('seq', (rep1(mkrep(k, j, (((), ritem),))),)))),)),)))
        good = same_deep(offs, want)
        judge(ctx, 'an offset is where its record starts', good, '%s: offsets' % what, 'the offsets are %s' % short(offs), det, [offs])
    return cfg, enc, h

def canon(t, depth=0, memo=None):
    """Bound indices of repetitions renamed by nesting depth."""
    if isinstance(t, tuple):
        return tuple(canon(x, depth) for x in t)
    if not isinstance(t, Tm):
        return t
    if t.op == 'rep':
        k = mk('k', 'canon', depth)
        alts = tuple((tuple(canon(subst(c, {t.a[1]: k}), depth + 1) for c in cs), tuple(canon(subst(p, {t.a[1]: k}), depth + 1) for p in ps)) for cs, ps in t.a[2])
        return mk('rep', canon(t.a[0], depth), k, alts)
    if not any(s.op == 'rep' for s in subterms(t)):
        return t
    if t.op == 'lin':
        c, m = lparts(t)
        r = I(c)
        for a, w in m.items():
            r = add(r, scale(canon(a, depth), w))
        return r
    return mk(t.op, *tuple(canon(x, depth) for x in t.a))

def same_deep(a, b):
    return a is b or canon(a) is canon(b)

def isbyte(p, v):
    return p.op == 'b' and p.a[0] is I(v) or p.op == 'le' and p.a[1] is I(v)

# ------------------------------------------------------------ writing
def writer(ctx):
    """Every way a map becomes chunks; returns {(K,V): dict(blob=cfg, key=cfg, val=encoding, hash=H)}."""
    if 'mapwriter' in ctx.cache:
        return ctx.cache['mapwriter']
    out = {}
    for b, Kt, Vt in map_rows(ctx, 'visit'):
        u = V.visit_unit(ctx, b)
        if u is None:
            continue
        what = 'HashMap<%s, %s>::visit' % (Kt.rsplit('::', 1)[-1], Vt.rsplit('::', 1)[-1])
        me = D.selfval(b)
        inf = out.setdefault((Kt, Vt), {})
        carg = mk('p', b['locs'][4][1] or 'a3')
        for o in u.outs:
            det = path_text(o)
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                continue
            ctx.count('map layouts')
            nodes = [x for x in o.ev if x[0] == 'add_node']
            loops = [x for x in o.ev if x[0] == 'loop']
            deleg = [x for x in o.ev if x[0] in ('visit', 'visit_inlined')]
            if len(nodes) != 1 or deleg:
                judge(ctx, 'a map is one container', False, '%s: %d containers' % (what, len(nodes)), 'a map becomes %d nodes outside its shards' % len(nodes), det)
                continue
            j = strip(nodes[0][2])
            own = [q for q in subterms(j) if q.op == 'job' and q.a[1] is me]
            if own and not loops:
                inf['blob'] = True
                continue
            cs = contents(ctx, u, o, nodes[0][2], lambda a: True, what)
            if cs is None:
                continue
            for q, c in cs:
                ps = list(pieces(c))
                if not loops:
                    # no shards: read back as one encoded (empty) map
                    empty = o.facts.leq0(slen(me), 2)
                    first = ps[0] if ps else None
                    z = first is not None and (isbyte(first, 0))
                    enc_ = len(ps) == 1 and first.op == 'enc' and first.a[1] is me
                    judge(ctx, 'a map without shards is one encoded map', bool(z and empty or enc_), '%s: container without shards' % what,
                          'a %s map is stored as %s without shards' % ('empty' if empty else 'non-empty', short(tuple(ps))), det, ps)
                    continue
                n = ps[0].a[1] if len(ps) == 1 and ps[0].op == 'le' and ps[0].a[0] == 4 else None
                judge(ctx, 'the container holds the number of shards', n is not None, '%s: container' % what, 'the container holds %s' % short(tuple(ps)), det, ps)
                if n is None:
                    continue
                shards(ctx, u, o, nodes[0], loops, n, me, Kt, Vt, inf, what, det)
    ctx.floor('map layouts', 30)
    ctx.cache['mapwriter'] = out
    return out

def shards(ctx, u, o, cont, loops, n, me, Kt, Vt, inf, what, det):
    if len(loops) != 1:
        return ctx.undec('%s: the shards are created by %d loops' % (what, len(loops)))
    lp = loops[0]
    info = u.e.loops.get(lp[1])
    for conds, ev in lp[3]:
        o2 = o
        if len(lp[3]) > 1:
            f = o.facts.copy()
            for c in conds:
                f.assume(c)
            o2 = Outcome(o.ret, St(o.st.m, f, o.ev))
        one_shard(ctx, u, o2, cont, lp, info['k'], ev, n, me, Kt, Vt, inf, what, det)

def one_shard(ctx, u, o, cont, lp, k, ev, n, me, Kt, Vt, inf, what, det):
    nodes = [x for x in ev if x[0] == 'add_node']
    if len(nodes) != 1:
        return judge(ctx, 'one shard per bucket', False, '%s: shards per bucket' % what, '%d nodes are created per bucket' % len(nodes), det)
    job = nodes[0][2]
    for x in ev:
        if x[0] == 'replace_job':
            if x[1] is nodes[0][1]:
                job = x[2]
            else:
                judge(ctx, 'a shard job replaces its own placeholder', False, '%s: replaced job' % what, 'the job of %s is replaced' % short(x[1]), det, [x[1]])
    link = [x for x in ev if x[0] == 'link']
    judge(ctx, 'shards are children of the container', len(link) == 1 and link[0][1] is cont[1] and link[0][2] is nodes[0][1], '%s: shard link' % what, 'shards are linked as %s' % [short(x[1:3]) for x in link], det)
    cs = contents(ctx, u, o, job, lambda a: a[:2] == [Kt, Vt], what)
    if cs is None:
        return
    v = strip(job)
    if not cs:
        return judge(ctx, 'a shard holds the entries of its bucket', False, '%s: shard without contents' % what, 'the job of a shard is %s, which never writes anything' % short(v), det)
    B = bucket_of(v, k)
    if B is None:
        return ctx.undec('%s: bucket of a shard not recognised in %s' % (what, short(v)))
    base = B.a[0]
    if base.op != 'phi' and not (base.op == 'seq'):
        return ctx.undec('%s: buckets are %s' % (what, short(base)))
    H = distribution(ctx, u, base, n, me, what, det)
    if H is not None:
        inf.setdefault('hash', H)
        ctx.prop == 'C19' or judge(ctx, 'one hash function everywhere', inf['hash'] is H, '%s: hash function' % what, 'entries are distributed by %s and by %s' % (short(H), short(inf['hash'])), det, [H])
    cnt = lp[2]
    nn = slen(base)
    judge(ctx, 'one shard per bucket', cnt is nn or cnt is n, '%s: number of shards' % what, '%s shards are created for %s buckets' % (short(cnt), short(nn)), det, [cnt])
    judge(ctx, 'a non-empty map has a shard', o.facts.leq0(sub_(ONE, n), 3), '%s: no shards' % what, 'a map may get %s shards' % short(n), det, [n])
    judge(ctx, 'shards follow their number', B.a[1] is k, '%s: shard order' % what, 'shard %s holds bucket %s' % (short(k), short(B.a[1])), det, [B.a[1]])
    # values in item order
    vl = [x for x in ev if x[0] == 'loop']
    good = len(vl) == 1 and vl[0][2] is slen(B) and len(vl[0][3]) == 1
    if good:
        ik = u.e.loops[vl[0][1]]['k']
        ve = [x for x in vl[0][3][0][1] if x[0] == 'visit_inlined']
        good = len(ve) == 1 and deref_all(ve[0][2]) is deref_all(deref(terms._fld(elem(B, ik), -1, 1))) and ve[0][3][1] is nodes[0][1]
    judge(ctx, 'values hang below their shard in item order', good, '%s: values of a shard' % what, 'the values of a shard are visited as %s' % [sh(x, 300) for x in vl], det)
    for q, c in cs:
        ps = list(pieces(c))
        if q.facts.leq0(slen(B), 2):
            ok_ = not ps or ps[0].op == 'le' and isbyte(ps[0], 0)
            judge(ctx, 'an empty bucket is an empty shard', ok_, '%s: empty shard' % what, 'an empty bucket is written as %s' % short(tuple(ps)), det, ps)
            continue
        r = shard_spec(ctx, B, ps, Kt, Vt, what, path_text(q), H)
        if r:
            inf['key'], inf['val'] = r[0], r[1]
        ctx.count('shard layouts')

def bucket_of(v, k):
    for x in subterms(v):
        if x.op == 'elem' and x.a[0].op in ('phi', 'seq', 'ixupd') and x.a[1] is k:
            return x
    for x in subterms(v):
        if x.op == 'elem' and x.a[0].op in ('phi', 'seq') and contains(x.a[1], k):
            return x
    return None

def distribution(ctx, u, base, n, me, what, det):
    """Every entry is appended to exactly one bucket, chosen by its hash; the hash function or None."""
    lid = base.a[0]
    info = u.e.loops.get(lid)
    if info is None or not info['phis'].get(base):
        ctx.undec('%s: buckets are %s' % (what, short(base)))
        return None
    k = info['k']
    entry, backs = info['phis'][base]
    H = None
    good = entry.op == 'seq' and len(pieces(entry)) == 1 and pieces(entry)[0].op == 'fill' and slen(entry) is n and is_empty(pieces(entry)[0].a[0])
    judge(ctx, 'as many buckets as the container says', good, '%s: buckets' % what, 'the buckets start as %s, the container says %s' % (short(entry), short(n)), det, [entry])
    for tag, cnt in info['exits']:
        judge(ctx, 'every entry is put in a bucket', cnt is slen(me), '%s: entries distributed' % what, '%s entries of %s are distributed' % (short(cnt) if cnt is not None else 'not all', short(slen(me))), det, [cnt])
    key = val = None
    for f, x in backs:
        ent = elem(me, k)
        kr, vr = terms._fld(ent, -1, 0), terms._fld(ent, -1, 1)
        ok_ = x.op == 'ixupd' and x.a[0] is base
        if ok_:
            nv = x.a[2]
            old = elem(base, x.a[1])
            ps = pieces(nv)
            new = [p for p in ps if p.op == 'b']
            ok_ = len(new) == 1 and len(ps) <= 3 and mk('seq', tuple(p for p in ps if p.op != 'b')) in (old, mk('seq', (mk('all', old),))) and new[0].a[0].op == 'agg'
            if ok_:
                it = new[0].a[0].a[2]
                ok_ = len(it) == 2 and deref_all(it[0]) is deref_all(kr) and deref_all(it[1]) is deref_all(vr)
        judge(ctx, 'every entry is put in one bucket', bool(ok_), '%s: bucket update' % what, 'an entry changes the buckets to %s' % short(x), det, [strip_phi(x, base)])
        if not ok_:
            continue
        ix = x.a[1]
        keyv = deref_all(kr)
        h = None
        if ix.op == 'rem' and ix.a[1] is n:
            for cand in (kr, deref(kr), keyv):
                h = h or hashed(ix.a[0], cand)
        if h is None and n is ONE and ix is ZERO:
            continue
        ctx.prop == 'C19' or judge(ctx, 'the bucket is the hash modulo the number of shards', h is not None, '%s: bucket index' % what, 'the bucket of an entry is %s' % short(ix), det, [ix])
        if h is not None:
            H = h
    return H

def strip_phi(x, base):
    return subst(x, {base: mk('buckets')})

def is_empty(t):
    return slen(t) is ZERO or t.op == 'seq' and not t.a[0]

# ------------------------------------------------------------ loading
def rdle(w, D_, pos):
    return mk('rd', 'le', w, D_, pos)

def key_read(t, Kt, Vt, Dt, pos):
    """cfg if t is the key decoded at pos (alone or as part of the pair)."""
    if t.op == 'fld' and t.a[2] == 0:
        q = t.a[0]
        if q.op == 'dec' and q.a[0] == '(%s, %s)' % (Kt, Vt) and q.a[1] is Dt and q.a[2] is pos:
            return q.a[3]
    if t.op == 'dec' and t.a[0] == Kt and t.a[1] is Dt and t.a[2] is pos:
        return t.a[3]
    return None

def val_read(t, Kt, Vt, Dt, pos, kcfg):
    """('full', cfg) / ('item', None) if t is the value behind the key at pos."""
    if t.op == 'fld' and t.a[2] == 1:
        q = t.a[0]
        if q.op == 'dec' and q.a[0] == '(%s, %s)' % (Kt, Vt) and q.a[1] is Dt and q.a[2] is pos:
            return 'full', q.a[3]
    p2 = add(pos, mk('declen', Kt, Dt, pos, kcfg))
    if t.op == 'dec' and t.a[0] == Vt and t.a[1] is Dt and t.a[2] is p2:
        return 'full', t.a[3]
    if t.op in ('item', 'lazyitem') and t.a[0] == Vt and any(x is p2 for x in t.a) and any(x is Dt for x in t.a):
        return t.op, None
    return None

def matches(wrote, read):
    """A value written with `wrote` may be read with `read`."""
    if wrote is None or read is None:
        return None
    return wrote[0] == 'full' and read[0] == 'full' and wrote[1] == read[1] or wrote[0] == 'shallow' and read[0] in ('item', 'lazyitem')

def loaders(ctx):
    for b, Kt, Vt in map_rows(ctx, 'from_node'):
        yield b, Kt, Vt, 'HashMap<%s, %s>::from_node' % (Kt.rsplit('::', 1)[-1], Vt.rsplit('::', 1)[-1]), mk('*', mk('p', b['locs'][1][1] or 'a0'))
    for n in ('map_load', 'mapi_load'):
        b = ctx.row('probe::promise::' + n)
        Kt, Vt = promise_types(ctx, b)
        yield b, Kt, Vt, 'ParcodeMapPromise<%s, %s>::load' % (Kt.rsplit('::', 1)[-1], Vt.rsplit('::', 1)[-1]), None

def promise_types(ctx, b):
    t = ctx.fx.T[b['locs'][1][0]]
    t = ctx.fx.T[t['t']] if t['k'] == 'ref' else t
    a = args_of(ctx, b['locs'][1][0] if ctx.fx.T[b['locs'][1][0]]['k'] != 'ref' else ctx.fx.T[b['locs'][1][0]]['t'])
    a = [x for x in a if not x.startswith("'")]
    return a[0], a[1]

def node_of(t):
    """The node a container read of the outcome refers to."""
    for s in subterms(t):
        if s.op in ('decoded',):
            return s.a[1]
        if s.op == 'child':
            return s.a[0]
    return None

def loading(ctx, wr):
    for b, Kt, Vt, what, node in loaders(ctx):
        u = ctx.unit(b, ('traits', 'node', 'root', 'decode'))
        if u is None:
            continue
        inf = wr.get((Kt, Vt)) or {}
        seen = set()
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            det = path_text(o)
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                seen.add('murky')
                continue
            ctx.count('map loads')
            v = o.ret.a[2][0]
            nd = node or node_of(v)
            if nd is None:
                nd = node_in(o)
            if nd is None:
                ctx.undec('%s: yields %s' % (what, short(v)))
                continue
            cc = mk('fld', nd, -1, terms.CC[0])
            none = o.facts.leq0(cc, 2)
            some_ = o.facts.leq0(sub_(ONE, cc), 2)
            if v.op == 'decoded' or v.op == 'dec':
                seen.add('blob')
                good = v.op == 'decoded' and v.a[0].replace(' ', '') == ('%s<%s,%s>' % (HM, Kt, Vt)).replace(' ', '') and v.a[1] is nd
                judge(ctx, 'a map without shards is one encoded map', good and not some_, '%s: map without shards' % what, 'a map without shards is read as %s' % short(v), det, [v])
                continue
            seen.add('shards')
            if none and is_empty(v):
                judge(ctx, 'a map without shards is one encoded map', 'blob' not in inf, '%s: map without shards' % what, 'a map stored as one value is loaded as an empty map', det, [v])
                continue
            if v.op != 'seq' or len(pieces(v)) != 1 or pieces(v)[0].op != 'rep':
                judge(ctx, 'every shard is loaded', False, '%s: shards loaded' % what, 'the loaded map is %s' % short(v), det, [v])
                continue
            r = pieces(v)[0]
            judge(ctx, 'every shard is loaded', r.a[0] is cc, '%s: shards loaded' % what, '%s shards are loaded of %s' % (short(r.a[0]), short(cc)), det, [r.a[0]])
            ctx.ob('every entry of a shard is loaded')
            for cs, ps in r.a[2]:
                Dt = mk('payload', mk('child', nd, r.a[1]))
                n = rdle(4, Dt, ZERO)
                f = domain.Facts()
                for c in cs:
                    f.assume(c)
                if not ps:
                    good = f.leq0(slen(Dt), 2) or f.leq0(n, 2)
                    judge(ctx, 'a shard is skipped only if it is empty', good, '%s: shard skipped' % what, 'a shard is skipped when %s' % ' and '.join(sh(c, 120) for c in cs), det, list(cs))
                    continue
                if len(ps) != 1 or ps[0].op != 'rep':
                    judge(ctx, 'every entry of a shard is loaded', False, '%s: entries of a shard' % what, 'a shard yields %s' % short(tuple(ps)), det, ps)
                    continue
                e = ps[0]
                judge(ctx, 'every entry of a shard is loaded', e.a[0] is n and len(e.a[2]) == 1, '%s: entries of a shard' % what, '%s entries are loaded from a shard (%d alternatives), it holds %s' % (short(e.a[0]), len(e.a[2]), short(n)), det, [e.a[0]])
                pos = add(I(8), add(scale(n, 12), rdle(4, Dt, add(I(8), add(scale(n, 8), scale(e.a[1], 4))))))
                for c2, p2 in e.a[2][:1]:
                    if len(p2) != 1 or p2[0].op != 'b' or p2[0].a[0].op != 'agg' or len(p2[0].a[0].a[2]) != 2:
                        judge(ctx, 'an entry is read where its offset points', False, '%s: entry' % what, 'an entry is %s' % short(tuple(p2)), det, p2)
                        continue
                    kt, vt = p2[0].a[0].a[2]
                    entry_read(ctx, what, inf, kt, vt, Kt, Vt, Dt, pos, det)
        for s in ('blob', 'shards'):
            judge(ctx, 'maps with and without shards can be loaded', s in seen or 'murky' in seen, '%s: no %s path' % (what, s), '%s cannot load a map stored %s' % (what, 'without shards' if s == 'blob' else 'in shards'), '')

def node_in(o):
    for x in walk(o.ev):
        if x[0] in ('read_raw', 'children', 'decode_node'):
            return x[-1] if x[0] != 'decode_node' else x[2]
    return None

def entry_read(ctx, what, inf, kt, vt, Kt, Vt, Dt, pos, det):
    kc = key_read(kt, Kt, Vt, Dt, pos)
    judge(ctx, 'an entry is read where its offset points', kc is not None, '%s: key' % what, 'the key of an entry is %s' % short(kt), det, [kt])
    if kc is None:
        return
    if inf.get('key') is not None:
        judge(ctx, 'keys are read as they were written', kc == inf['key'], '%s: key encoding' % what, 'keys are written with %s and read with %s' % (inf['key'], kc), det)
    vr = val_read(vt, Kt, Vt, Dt, pos, kc)
    judge(ctx, 'an entry is read where its offset points', vr is not None, '%s: value' % what, 'the value of an entry is %s' % short(vt), det, [vt])
    if vr is not None and inf.get('val') is not None:
        judge(ctx, 'values are read as they were written', matches(inf['val'], vr), '%s: value encoding' % what, 'values are written %s and read %s' % (inf['val'], vr), det)

def c19(ctx):
    wr = writer(ctx)
    blob(ctx)
    ctx.floor('shard layouts', 8)
    loading(ctx, wr)
    ctx.floor('map loads', 8)

def blob(ctx):
    """A map stored without shards is written as one encoded map (decoded as one by every reader)."""
    for b, Kt, Vt in map_rows(ctx, 'create_job'):
        s = ctx.fx.T[b['self']]['s']
        u = ctx.unit(b, ('graph', 'traits'), ((s, 'create_job'),))
        what = 'HashMap<%s, %s>::create_job' % (Kt.rsplit('::', 1)[-1], Vt.rsplit('::', 1)[-1])
        for o in (u.outs if u else ()):
            cs = contents(ctx, u, o, o.ret, lambda a: any(x == s for x in a), what)
            for q, c in cs or ():
                ps = list(pieces(c))
                good = len(ps) == 1 and ps[0].op == 'enc' and ps[0].a[0] == s and deref_all(ps[0].a[1]) is deref_all(D.selfval(b))
                ctx.count('whole-map encodings')
                judge(ctx, 'a map without shards is one encoded map', good, '%s: content' % what, 'a map stored as one value is written as %s' % short(tuple(ps)), path_text(q), ps)

# ------------------------------------------------------------ lookup
LOOKUPS = (('map_get', False), ('mapi_get', False), ('map_get_lazy', True), ('mapl_get_lazy', True))

def eq_of(c):
    """(a, b) if the condition says a == b, with its truth."""
    val = True
    while c.op == 'not':
        c, val = c.a[0], not val
    if c.op == 'eq':
        return (c.a[0], c.a[1]), val
    if c.op == 'eqz':
        cst, m = lparts(c.a[0])
        if cst == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
            return tuple(m), val
        if cst == 0 and len(m) == 1:
            return (next(iter(m)), ZERO), val
    return None, None

def stored_keys(t, Kt, Vt, Dt, pos, cfgs=None):
    return key_read(t, Kt, Vt, Dt, pos) is not None

def sub_view(D_):
    """(sequence, start) a cursor over a slice reads from."""
    off = ZERO
    while D_.op == 'rv' or D_.op == 'sub':
        if D_.op == 'sub':
            off = add(off, D_.a[1])
        D_ = D_.a[0]
    return D_, off

def abs_dec(t):
    """Decodes from the tail of a payload, as decodes at a position of the payload."""
    m = {}
    for s in subterms(t):
        if s.op in ('dec', 'declen') and s.a[1].op in ('sub', 'rv'):
            b, off = sub_view(s.a[1])
            m[s] = mk(s.op, s.a[0], b, add(off, s.a[2]), s.a[3])
    return subst(t, m) if m else t

def lookups(ctx, wr):
    for n, lazy in LOOKUPS:
        b = ctx.row('probe::promise::' + n)
        Kt, Vt = promise_types(ctx, b)
        what = 'ParcodeMapPromise<%s, %s>::%s' % (Kt.rsplit('::', 1)[-1], Vt.rsplit('::', 1)[-1], 'get_lazy' if lazy else 'get')
        inf = wr.get((Kt, Vt)) or {}
        u = ctx.unit(b, ('traits', 'node', 'root', 'decode'))
        if u is None:
            continue
        key = mk('*', mk('p', b['locs'][2][1] or 'a1'))
        seen = set()
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            det = path_text(o)
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (what, w))
                seen.add('murky')
                continue
            ctx.count('map lookups')
            v = o.ret.a[2][0]
            nd = node_in(o)
            if nd is None:
                judge(ctx, 'an answer comes from the map', False, '%s: answer without reading' % what, '%s answers %s without reading the map' % (what, short(v)), det, [v])
                continue
            cc = mk('fld', nd, -1, terms.CC[0])
            if o.facts.leq0(cc, 2):
                seen.add('blob')
                if lazy:
                    lazy_blob(ctx, what, u, o, nd, v, Kt, Vt, key, inf, det, seen)
                else:
                    m = v if v.op == 'mapget' else None
                    good = m is not None and m.a[1].op == 'decoded' and m.a[1].a[1] is nd and m.a[1].a[0].startswith(HM) and deref_all(m.a[2]) is deref_all(key)
                    judge(ctx, 'a map without shards is searched by key', good, '%s: map without shards' % what, 'the answer for a map without shards is %s' % short(v), det, [v])
                continue
            seen.add('shards')
            sharded(ctx, what, u, o, nd, v, Kt, Vt, key, inf, lazy, det, seen)
        for s in ('blob', 'shards', 'hit', 'miss'):
            judge(ctx, 'every kind of map and answer is possible', s in seen or 'murky' in seen, '%s: no %s path' % (what, s), '%s has no %s path' % (what, s), '')

def the_shard(ctx, what, o, nd, inf, key, det):
    """The shard node that is searched: the child the writer put the key in."""
    S = rdle(4, mk('payload', nd), ZERO)
    H = inf.get('hash')
    ch = [x for x in walk(o.ev) if x[0] == 'child']
    if len({x[2] for x in ch}) != 1:
        ctx.undec('%s: %d shards are opened' % (what, len(ch)))
        return None
    ix = ch[0][2]
    good = ch[0][1] is nd and ix.op == 'rem' and ix.a[1] is S and (H is None or hashed(ix.a[0], key) is H or hashed(ix.a[0], deref_all(key)) is H)
    judge(ctx, 'the shard searched is the one the writer chose', good, '%s: shard' % what, 'shard %s is searched, entries are stored in %s of the container\'s count' % (short(ix), short(H) if H is not None else 'the hash modulo'), det, [ix])
    return mk('child', nd, ix) if good else None

def entry_pos(Dt, k):
    n = rdle(4, Dt, ZERO)
    return add(I(8), add(scale(n, 12), rdle(4, Dt, add(I(8), add(scale(n, 8), scale(k, 4))))))

def sharded(ctx, what, u, o, nd, v, Kt, Vt, key, inf, lazy, det, seen):
    C = the_shard(ctx, what, o, nd, inf, key, det)
    if C is None:
        return
    Dt = mk('payload', C)
    n = rdle(4, Dt, ZERO)
    kk = deref_all(key)
    if v is NONE:
        seen.add('miss')
        if o.facts.leq0(slen(Dt), 2) or o.facts.leq0(n, 2):
            ctx.ob('None only when every entry was compared')
            return
        scan = [x for x in o.ev if x[0] == 'loop' and x[2] is n]
        info = None
        for lid, i in u.e.loops.items():
            if any(c is n for t, c in i['exits']) and not scan:
                pass
        if not scan:
            # a scan without any event: look for a loop that ran over all entries
            return judge(ctx, 'None only when every entry was compared', False, '%s: miss' % what, '%s answers None without comparing all %s entries' % (what, short(n)), det)
        k = u.e.loops[scan[0][1]]['k']
        for cs, ev in scan[0][3]:
            good = False
            for c in cs:
                e, val = eq_of(c)
                if e is None or val:
                    continue
                a, b = (abs_dec(x) for x in e)
                for x, y in ((a, b), (b, a)):
                    if y.op == 'rd' and y is mk('rd', 'le', 8, Dt, add(I(8), scale(k, 8))) and (hashed(x, key) is inf.get('hash') or hashed(x, kk) is inf.get('hash')):
                        good = True
                    if deref_all(x) is kk and key_read(y, Kt, Vt, Dt, entry_pos(Dt, k)) is not None:
                        good = True
            judge(ctx, 'an entry is passed over only if hash or key differ', good, '%s: entry passed over' % what, 'an entry is passed over when %s' % ' and '.join(sh(c, 200) for c in cs[:5]), det, list(cs))
        return
    if not is_some(v):
        return judge(ctx, 'an answer is an entry of the map', False, '%s: answer' % what, 'the answer is %s' % short(v), det, [v])
    seen.add('hit')
    val = v.a[2][0]
    # the entry whose key equals the searched one
    hit = None
    for c in o.facts.conds():
        e, tr = eq_of(c)
        if e is None or not tr:
            continue
        a, b = (abs_dec(x) for x in e)
        for x, y in ((a, b), (b, a)):
            if deref_all(x) is kk:
                j = entry_index(y, Kt, Vt, Dt)
                if j is not None:
                    hit = j, y
    judge(ctx, 'a hit has an equal key', hit is not None, '%s: hit without key comparison' % what, '%s returns an entry whose key was not found equal' % what, det, [c for c in o.facts.conds()] if hit is None else [])
    if hit is None:
        return
    j, kt = hit
    pos = entry_pos(Dt, j)
    if not lazy:
        entry_read(ctx, what, inf, kt, abs_dec(val), Kt, Vt, Dt, pos, det)
        return
    kc = key_read(kt, Kt, Vt, Dt, pos)
    lz = lazy_value(val)
    good = lz is not None and lz[0] == Vt and lz[1] is Dt and lz[2] is add(pos, mk('declen', Kt, Dt, pos, kc))
    judge(ctx, 'the value belongs to the equal key', good, '%s: value' % what, 'the lazy value is %s' % short(val), det, [val])
    lazy_layout(ctx, what, Vt, inf)
    # children of earlier entries are skipped
    it = lz[3] if lz else None
    if it is None or it.op != 'phi':
        none = it is not None and it.op == 'it'
        return judge(ctx, 'children of earlier entries are skipped', not none, '%s: children' % what, 'the value takes its children from %s' % short(it), det, [it])
    info = u.e.loops.get(it.a[0])
    if info is None or not info['phis'].get(it):
        return ctx.undec('%s: children iterator %s' % (what, short(it)))
    e0, bs = info['phis'][it]
    lp = [x for x in o.ev if x[0] == 'loop' and x[1] == it.a[0]]
    judge(ctx, 'children of earlier entries are skipped', len(lp) == 1 and lp[0][2] is j, '%s: entries skipped' % what, 'the children of %s entries are skipped before entry %s' % (short(lp[0][2]) if lp else 'no', short(j)), det, [lp[0][2]] if lp else [])
    judge(ctx, 'children are those of the shard', contains(e0, C), '%s: children source' % what, 'children are taken from %s' % short(e0), det, [e0])
    k = info['k']
    for x in (lp[0][3] if lp else ()):
        rl = [y for y in x[1] if y[0] == 'read_lazy_from_stream']
        p = entry_pos(Dt, k)
        good = False
        if len(rl) == 1:
            b0, off = cursor_at(rl[0][2])
            good = b0 is Dt and off is not None and abs_dec(off) is add(p, mk('declen', Kt, Dt, p, kc)) and rl[0][3] is it
        judge(ctx, 'children of earlier entries are skipped', good, '%s: skipping an entry' % what, 'an earlier entry is skipped by %s' % [sh(y, 300) for y in rl], det)

def cursor_at(c):
    if c.op != 'agg' or c.a[0] != 'Cursor':
        return None, None
    b, off = sub_view(c.a[2][0])
    return b, add(off, c.a[2][1])

def lazy_value(v):
    """(type, payload, position, children) of a lazily read item."""
    if v.op != 'lazyitem':
        return None
    b, off = cursor_at(v.a[1])
    return v.a[0], b, abs_dec(off) if off is not None else None, v.a[2]

def entry_index(y, Kt, Vt, Dt):
    """j if y is the key of entry j."""
    q = y.a[0] if y.op == 'fld' else y
    if q.op != 'dec' or q.a[1] is not Dt:
        return None
    n = rdle(4, Dt, ZERO)
    for s in subterms(q.a[2]):
        if s.op == 'rd' and s.a[1] == 4 and s.a[2] is Dt and s.a[3] is not ZERO:
            d = sub_(s.a[3], add(I(8), scale(n, 8)))
            c, m = lparts(d)
            if c % 4 == 0 and all(w % 4 == 0 for w in m.values()):
                j = I(c // 4)
                for a, w in m.items():
                    j = add(j, scale(a, w // 4))
                if key_read(y, Kt, Vt, Dt, entry_pos(Dt, j)) is not None:
                    return j
    return None

def lazy_layout(ctx, what, Vt, inf):
    """A lazy value reads its local fields one after the other: they must be what is stored first."""
    if inf.get('val') is None or inf['val'][0] == 'shallow':
        return
    ds = {s: (r, f) for s, r, f in D.derived(ctx)}
    if Vt not in ds:
        return
    L, R = D.layout_of(ctx, Vt, ds[Vt][1])
    if L is None:
        return
    names = [f for f, t in ds[Vt][1]]
    loc = [f for f, t, c in L]
    judge(ctx, 'a lazy value reads the fields where they are stored', names[:len(loc)] == loc, 'get_lazy: values whose chunkable fields precede local ones',
          'a map shard stores the whole value (fields %s), get_lazy reads the local fields %s one after the other' % (' '.join(names), ' '.join(loc)), '')

def lazy_blob(ctx, what, u, o, nd, v, Kt, Vt, key, inf, det, seen):
    Dt = mk('payload', nd)
    kk = deref_all(key)
    d = D.first_decode(o)
    lp = [x for x in o.ev if x[0] == 'loop']
    if d is None or d[1] != 'u64' or d[2] is not Dt or d[3] is not ZERO or len(lp) != 1:
        if v.op == 'mapget' or v is NONE:
            return ctx.undec('%s: map without shards: %s' % (what, short(v)))
        return judge(ctx, 'a map without shards is searched by key', False, '%s: map without shards' % what, 'a map without shards is searched as %s' % short(v), det, [v])
    n = mk('dec', 'u64', Dt, ZERO, d[4])
    info = u.e.loops[lp[0][1]]
    for x in lp[0][3]:
        rl = [y for y in x[1] if y[0] == 'read_lazy_from_stream']
        kd = [y for y in x[1] if y[0] == 'decode']
        good = False
        if len(kd) == 1 and len(rl) == 1 and kd[0][1] == Kt and kd[0][2] is Dt:
            p = kd[0][3]
            b0, off = cursor_at(rl[0][2])
            good = b0 is Dt and off is add(p, mk('declen', Kt, Dt, p, kd[0][4])) and p.op == 'phi' and info['phis'].get(p) is not None \
                and info['phis'][p][0] is mk('declen', 'u64', Dt, ZERO, d[4]) and all(nx.op == 'posafter' and contains(nx, p) for f, nx in info['phis'][p][1])
            good = good and any((lambda e: e[0] is not None and not e[1] and kk in [deref_all(q) for q in e[0]] and mk('dec', Kt, Dt, p, kd[0][4]) in e[0])(eq_of(c)) for c in x[0])
        judge(ctx, 'a map without shards is searched by key', good, '%s: entry of a map without shards' % what, 'an entry is passed over by %s when %s' % ([sh(y, 200) for y in kd + rl], ' and '.join(sh(c, 100) for c in x[0][:4])), det)
    if v is NONE:
        seen.add('miss')
        return judge(ctx, 'None only when every entry was compared', lp[0][2] is n, '%s: miss' % what, '%s answers None after %s of %s entries' % (what, short(lp[0][2]), short(n)), det, [lp[0][2]])
    seen.add('hit')
    lz = lazy_value(v.a[2][0]) if is_some(v) else None
    eqs = [eq_of(c)[0] for c in o.facts.conds() if eq_of(c)[1]]
    good = False
    if lz is not None and lz[0] == Vt and lz[1] is Dt:
        for e in eqs:
            if e is None:
                continue
            for x, y in (e, e[::-1]):
                if deref_all(x) is kk and y.op == 'dec' and y.a[0] == Kt and y.a[1] is Dt and lz[2] is add(y.a[2], mk('declen', Kt, Dt, y.a[2], y.a[3])):
                    good = True
    judge(ctx, 'the value belongs to the equal key', good, '%s: value of a map without shards' % what, 'the answer is %s' % short(v), det, [v])
    lazy_layout(ctx, what, Vt, dict(val=('full', None)))

def c18(ctx):
    wr = writer(ctx)
    lookups(ctx, wr)
    ctx.floor('map lookups', 16)
