"""Derived types and built-in codecs: what is written for a value and what every reader takes for it."""
from core import *
from core import walk
import domain, terms
from models import NONE, some
import rules_write as W
import rules_visit as V
from rules_write import judge, short, is_some

JOB = 'parcode::graph::job::SerializationJob'
VIS, NAT, ITEM, LAZY = 'parcode::visitor::ParcodeVisitor', 'parcode::reader::ParcodeNative', 'parcode::reader::ParcodeItem', 'parcode::rt::ParcodeLazyRef'
DEREF = ('&',)

def selfs(ctx, b):
    return ctx.fx.T[b['self']]['s'] if b.get('self') is not None else ''

def method(ctx, tr, m, s):
    for b in ctx.fx.F.values():
        if (b.get('tr') or '').startswith(tr) and b['m'] == m and selfs(ctx, b) == s:
            return b
    return None

def derived(ctx):
    """Probe types deriving ParcodeObject: (type string, type row, [(field, type string)])."""
    out = []
    for b in ctx.fx.F.values():
        if b.get('tr') == VIS and b['m'] == 'visit' and b['crate'] == 'probe':
            r = ctx.fx.T[b['self']]
            if r['k'] == 'adt':
                out.append((r['s'], r, [(f[0], ctx.fx.T[f[1]]['s']) for f in r['vs'][0]['f']]))
    return sorted(out, key=lambda x: x[0])

def field_of(t, base):
    """The name of the field of `base` that term t is, or None."""
    if t.op == 'fld' and t.a[0] is base:
        return t.a[2]
    return None

def selfval(b):
    """The value behind the self argument of a method row."""
    return mk('*', mk('p', b['locs'][1][1] or 'a0'))

def written(content):
    """Pieces appended to a writer: the previous content is dropped."""
    ps = list(pieces(content))
    if ps and ps[0].op == 'all' and ps[0].a[0].op == '*':
        ps = ps[1:]
    return ps

def appended(o, root):
    for r, v in o.st.m.items():
        if r[0] == 'S' and isinstance(r[1], Tm) and r[1] is root:
            return written(v)
    return []

def appended_to(o, row, i):
    p = mk('p', row['locs'][i + 1][1] or 'a%d' % i)
    r = appended(o, p)
    for x in walk(o.ev):
        if x[0] == 'sink' and x[1] in ('write', 'partial_write'):
            r = r + list(pieces(x[3]))
    return r

def locals_of(ctx, what, ps, base, det):
    """[(field, type, cfg)] for a sequence of encodings of fields of `base`."""
    out = []
    for p in ps:
        f = field_of(p.a[1], base) if p.op == 'enc' else None
        if f is None:
            if p.op == 'enc' and resolved(p) or p.op in ('b', 'le', 'be', 'rep', 'fill'):
                judge(ctx, 'the shallow encoding holds the local fields', False, '%s: other bytes' % what, '%s writes %s, which is no field of the value' % (what, short(p)), det, [p])
            else:
                ctx.undec('%s: writes %s' % (what, short(p)))
            return None
        out.append((f, p.a[0], p.a[2]))
    return out

def layout_of(ctx, s, fields):
    """(locals [(name, type, cfg)], remotes [name]) of a derived type, from the writer side; every writer must agree."""
    key = ('layout', s)
    if key in ctx.cache:
        return ctx.cache[key]
    ft = dict(fields)
    L = None
    def same(what, x, det):
        nonlocal L
        if x is None:
            return
        if L is None:
            L = x
        ctx.ob('every writer of the type agrees')
        if x != L:
            ctx.violate('%s: field order' % what, '%s writes the fields %s, elsewhere %s is written' % (what, ' '.join(f for f, _, _ in x), ' '.join(f for f, _, _ in L)), det)
        ctx.count('writers of local fields')
    b = method(ctx, VIS, 'serialize_shallow', s)
    if b is not None:
        u = ctx.unit(b, ('traits',), (s,))
        for o in (u.outs if u else ()):
            if is_ok(o.ret):
                same('%s::serialize_shallow' % s, locals_of(ctx, '%s::serialize_shallow' % s, appended_to(o, b, 1), selfval(b), path_text(o)), path_text(o))
    # the job created for the value, with and without configuration
    b = method(ctx, VIS, 'create_job', s)
    if b is not None:
        u = ctx.unit(b, ('graph', 'traits'), ((s, 'create_job'),))
        for o in (u.outs if u else ()):
            job_writes(ctx, s, u, o, selfval(b), same)
    # remote fields
    R = None
    for m in ('visit', 'visit_inlined'):
        b = method(ctx, VIS, m, s)
        u = ctx.unit(b, ('traits', 'graph'), ((s, m),)) if b is not None else None
        if u is None:
            continue
        base = selfval(b)
        for o in u.outs:
            r = []
            odd = None
            for x in walk(o.ev):
                if x[0] == 'loop':
                    odd = 'a loop'
                if x[0] == 'visit_inlined':
                    odd = 'visit_inlined of %s' % short(x[2])
                if x[0] == 'visit':
                    f = field_of(x[2], base)
                    if f is None:
                        judge(ctx, 'children are fields of the value', False, '%s::%s: visits no field' % (s, m), '%s visits %s' % (s, short(x[2])), path_text(o), [x[2]])
                    r.append(f)
                if x[0] == 'add_node' and m == 'visit':
                    j = x[2]
                    good = any(q.op == 'job' and q.a[0] == s and q.a[1] is base for q in subterms(j))
                    judge(ctx, 'the node holds the job of the value', good, '%s::visit: job' % s, 'the node of a %s holds %s' % (s, short(j)), path_text(o), [j])
            if odd:
                ctx.undec('%s::%s: %s' % (s, m, odd))
                continue
            ctx.ob('visit and visit_inlined visit the same children')
            ctx.count('visitors of chunkable fields')
            if R is None:
                R = r
            if r != R:
                ctx.violate('%s::%s: children' % (s, m), '%s::%s visits the fields %s, elsewhere %s are visited' % (s, m, r, R), path_text(o))
    if L is not None and R is not None:
        ctx.ob('every field is written exactly once')
        all_ = [f for f, _, _ in L] + R
        for f in ft:
            if all_.count(f) != 1:
                ctx.violate('%s: field %s written %d times' % (s, f, all_.count(f)), 'field %s of %s is written %d times (local: %s; children: %s)' % (f, s, all_.count(f), ' '.join(q for q, _, _ in L), ' '.join(map(str, R))))
        for f, t, c in L:
            if f in ft and t != ft[f] and not (t.startswith('&') and t.lstrip('&') == ft[f]):
                ctx.undec('%s: field %s of type %s is encoded as %s' % (s, f, ft[f], t))
    ctx.cache[key] = (L, R)
    return L, R

def inner_defs(v):
    r = []
    for x in v.a[2]:
        while x.op == 'rv':
            x = x.a[0]
        if x.op == 'agg':
            r.append(x.a[0])
    return r

def own_job(ctx, t, s):
    """Type t is s itself or a one-parameter job type for s."""
    r = ctx.fx.T.get(t) if isinstance(t, int) else None
    if r is None:
        return False
    if r['s'] == s:
        return True
    a = [x for x in r.get('args') or [] if isinstance(x, int) and x in ctx.fx.T]
    return r['k'] == 'adt' and len(a) == 1 and ctx.fx.T[a[0]]['s'] == s

def job_writes(ctx, s, u, o, base, same):
    v = o.ret
    while v.op == 'rv':
        v = v.a[0]
    if v.op != 'agg':
        return ctx.undec('%s::create_job: %s' % (s, short(v)))
    name = v.a[0]
    cands = [b for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'execute' and ctx.fx.T[b['self']].get('def') == name]
    if name.endswith('ConfiguredJob'):
        cands = [b for b in cands if any(own_job(ctx, a, s) and ctx.fx.T[a].get('def') in inner_defs(v) for a in ctx.fx.T[b['self']].get('args') or [])]
    else:
        cands = [b for b in cands if own_job(ctx, b['self'], s)]
    if len(cands) != 1:
        return ctx.undec('%s::create_job: %d jobs named %s' % (s, len(cands), name))
    try:
        outs = u.e.run_inst(cands[0]['inst'], [mk('rv', v), mk('p', 'refs')], o.st.copy())
    except Exception as x:
        return ctx.undec('%s: job of the value: %s' % (s, x))
    ctx.analysed.add(cands[0]['p'])
    for q in outs:
        if is_ok(q.ret):
            what = '%s: job' % s
            same(what, locals_of(ctx, what, list(pieces(q.ret.a[2][0])), base, path_text(q)), path_text(q))

def slices(ctx, s):
    """serialize_slice: the u64 count and every item's shallow encoding in order; what slice readers expect first."""
    b = method(ctx, VIS, 'serialize_slice', s)
    if b is None:
        return None
    u = ctx.unit(b, ('traits',), ((s, 'serialize_slice'),))
    hdr = None
    for o in (u.outs if u else ()):
        if not is_ok(o.ret):
            continue
        what = '%s::serialize_slice' % s
        sl = mk('*', mk('p', b['locs'][1][1] or 'a0'))
        ps = appended_to(o, b, 1)
        ctx.count('slice writers')
        if len(ps) == 1 and ps[0].op == 'enc' and ps[0].a[1] is sl and ps[0].a[0] == '[%s]' % s:
            h = ('u64', ps[0].a[2])
            ctx.ob('a slice is its count and its items in order')
        else:
            k = mk('k', 'exp')
            want = rep1(mkrep(slen(sl), k, (((), (mk('shallow', s, elem(sl, k)),)),)))
            good = len(ps) == 2 and ps[0].op == 'enc' and ps[0].a[1] is slen(sl) and W.same_rep(ps[1], want)
            judge(ctx, 'a slice is its count and its items in order', good, '%s: layout' % what, '%s writes %s' % (what, short(tuple(ps))), path_text(o), ps)
            h = (ps[0].a[0], ps[0].a[2]) if good else None
        if hdr is None:
            hdr = h
    return hdr

def rep1(r):
    return r[0] if isinstance(r, tuple) else r

def expect_locals(L, D, pos):
    """name -> the decode each local field must be, and the position behind the last one."""
    m = {}
    for f, t, cfg in L:
        m[f] = mk('dec', t, D, pos, cfg)
        pos = add(pos, mk('declen', t, D, pos, cfg))
    return m, pos

def first_decode(o):
    for x in walk(o.ev):
        if x[0] == 'decode':
            return x
    return None

def fields_of_agg(ctx, t):
    """{name: value} of an aggregate of a probe struct."""
    for r in ctx.fx.T.values():
        if r['k'] == 'adt' and r.get('def') == t.a[0]:
            return {f[0]: v for f, v in zip(r['vs'][t.a[1]]['f'], t.a[2])}
    return None

READERS = ((NAT, 'from_node', 'node'), (ITEM, 'read_from_shard', 'stream'), (LAZY, 'create_lazy', 'node'), (LAZY, 'read_lazy_from_stream', 'stream'))

def reader_layout(ctx, s, fields, L, R):
    ft = dict(fields)
    for tr, m, kind in READERS:
        b = method(ctx, tr, m, s)
        if b is None:
            continue
        lazy = tr == LAZY
        # a node reader may delegate to the stream reader of the same type
        u = ctx.unit(b, ('traits', 'node', 'decode', 'coll'), (s,))
        if u is None:
            continue
        what = '%s::%s' % (s, m)
        n = 0
        for o in u.outs:
            v = o.ret.a[2][0] if is_ok(o.ret) else None
            if v is None:
                continue
            n += 1
            det = path_text(o)
            ctx.count('readers of derived types')
            fv = fields_of_agg(ctx, v) if v.op == 'agg' else None
            if fv is None:
                ctx.undec('%s: yields %s' % (what, short(v)))
                continue
            a = [mk('p', l[1] or 'a%d' % i) for i, l in enumerate(b['locs'][1:b['argc'] + 1])]
            if kind == 'node':
                node = mk('*', a[0]) if ctx.fx.T[b['locs'][1][0]]['k'] == 'ref' else a[0]
                D, pos = mk('payload', node), ZERO
                kid = lambda j: mk('child', node, I(j))
            else:
                d = first_decode(o)
                cur = mk('*', a[0])
                pos = terms._fld(cur, -1, 1)
                D = u.e.deref(o.st, terms._fld(cur, -1, 0))
                kids = mk('*', a[1])
                kid = lambda j: elem(kids, I(j))
            want, end = expect_locals(L, D, pos)
            for f, t, c in L:
                got = fv.get(f)
                judge(ctx, 'a local field is read where it was written', got is want[f], '%s: field %s' % (what, f),
                      'field %s is read as %s, written as %s' % (f, short(got), short(want[f])), det, [got])
            for j, f in enumerate(R):
                got = fv.get(f)
                x = mk('lazy' if lazy else 'fromnode', ft[f], kid(j))
                good = got is x or same_child(got, x)
                judge(ctx, 'a chunkable field is read from its own child', good, '%s: field %s' % (what, f),
                      'field %s is %s, its chunk is child %d' % (f, short(got), j), det, [got])
            if kind == 'stream':
                ends(ctx, what, o, a, D, end, len(R), det)
        ctx.ob('a reader can succeed')
        if not n and u.outs:
            judge(ctx, 'a reader can succeed', False, '%s: never succeeds' % what, '%s has no successful path' % what, '\n'.join(str(path_text(o)) for o in u.outs)[:4000])

def same_child(a, b):
    return a is not None and a.op == b.op and a.a[0] == b.a[0] and strip_sites(a) is strip_sites(b)

def ends(ctx, what, o, a, D, end, n, det):
    """A stream reader leaves the stream behind the last local field and has taken exactly its own children."""
    for r, v in o.st.m.items():
        if r[0] != 'S' or not isinstance(r[1], Tm):
            continue
        if r[1] is a[0] and v.op == 'agg' and v.a[0] == 'Cursor':
            p = v.a[2][1]
            judge(ctx, 'the stream is left behind the last field', p is end, '%s: stream end' % what, 'the stream is left at %s, expected %s' % (short(p), short(end)), det, [p])
        if r[1] is a[1] and v.op == 'it' and v.a[0] == 'seq':
            judge(ctx, 'exactly the own children are taken', isint(v.a[2]) and v.a[2].a[0] == n, '%s: children taken' % what, '%s children are taken for %d chunkable fields' % (short(v.a[2]), n), det, [v.a[2]])

def one_child(ctx):
    """visit() under a parent links exactly one new node to that parent."""
    for b in V.visit_rows(ctx, ('visit',)):
        u = V.visit_unit(ctx, b)
        if u is None:
            continue
        name = V.selfname(ctx, b)
        if name.startswith('&'):
            continue
        parg = mk('p', b['locs'][3][1] or 'a2')
        par = mk('fld', parg, 1, 0)
        for o in u.outs:
            if o.facts.v.get(parg) == 0:
                continue
            links = [x for x in walk(o.ev) if x[0] == 'link' and x[1] is par]
            top = [x for x in o.ev if x[0] == 'link' and x[1] is par]
            ctx.count('visits below a parent')
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s::visit: %s' % (name, w))
                continue
            deleg = [x for x in walk(o.ev) if x[0] == 'visit' and len(x[3]) > 1 and x[3][1] in (parg, some(par))]
            judge(ctx, 'a chunkable field becomes exactly one child', len(links) == len(top) and len(links) + len(deleg) == 1, '%s::visit: %d children' % (name, len(links) + len(deleg)),
                  'visiting a %s below a parent links %d nodes to it' % (name, len(links) + len(deleg)), path_text(o))

def c17(ctx):
    ds = derived(ctx)
    for s, r, fields in ds:
        L, R = layout_of(ctx, s, fields)
        if L is None or R is None:
            ctx.undec('%s: layout not recognised' % s)
            continue
        ctx.count('derived types')
        h = slices(ctx, s)
        reader_layout(ctx, s, fields, L, R)
        if h is not None:
            slice_readers(ctx, s, h)
    ctx.floor('derived types', 6)
    ctx.floor('readers of derived types', 18)
    one_child(ctx)
    ctx.floor('visits below a parent', 20)

def slice_readers(ctx, s, hdr):
    """Slice readers take the count the slice writer wrote, then exactly that many items."""
    b = method(ctx, ITEM, 'read_into_slice', s)
    if b is None:
        return
    u = ctx.unit(b, ('traits',), ((s, 'read_into_slice'),))
    for o in (u.outs if u else ()):
        if not is_ok(o.ret):
            continue
        what = '%s::read_into_slice' % s
        ctx.count('slice readers')
        det = path_text(o)
        d = first_decode(o)
        cur = mk('*', mk('p', b['locs'][1][1] or 'a0'))
        pos = terms._fld(cur, -1, 1)
        D = u.e.deref(o.st, terms._fld(cur, -1, 0))
        n = mk('dec', hdr[0], D, pos, hdr[1])
        if d is None:
            ctx.undec('%s: no decode' % what)
            continue
        judge(ctx, 'the item count is read as it was written', d[1] == hdr[0] and d[4] == hdr[1] and d[3] is pos and d[2] is D, '%s: count' % what,
              'the item count is read as %s at %s with %s, written as %s with %s' % (d[1], short(d[3]), d[4], hdr[0], hdr[1]), det, [d[3]])
        judge(ctx, 'the number of items read is returned', o.ret.a[2][0] is n, '%s: result' % what, '%s returns %s' % (what, short(o.ret.a[2][0])), det, [o.ret.a[2][0]])
        after = add(pos, mk('declen', hdr[0], D, pos, hdr[1]))
        copies = [x for x in o.ev if x[0] == 'rawcopy']
        if copies:
            x = copies[0]
            src, dst, cnt = x[1]
            good = len(copies) == 1 and s == 'u8' and cnt is n and src.op == 'ptr' and src.a[0].op in ('rv', 'sub', 'seq') or src.op == 'ptr'
            v = src.a[0]
            v = v.a[0] if v.op == 'rv' else v
            good = len(copies) == 1 and s in ('u8', 'i8') and cnt is n and v is subseq(D, after, add(after, n)) and src.a[1] is ZERO and dst.a[1] is ZERO
            judge(ctx, 'items follow the count', good, '%s: bulk copy' % what, 'the items are copied from %s, %s of them' % (short(v), short(cnt)), det, [v, cnt])
            continue
        lp = [x for x in o.ev if x[0] == 'loop']
        if len(lp) != 1:
            ctx.undec('%s: %d loops' % (what, len(lp)))
            continue
        judge(ctx, 'as many items are read as the count says', lp[0][2] is n, '%s: items' % what, '%s items are read, the count is %s' % (short(lp[0][2]), short(n)), det, [lp[0][2]])
        info = u.e.loops.get(lp[0][1])
        for c, ev in lp[0][3]:
            rd = [x for x in ev if x[0] in ('read_from_shard', 'decode')]
            st_ = [x for x in ev if x[0] == 'initslot']
            good = len(rd) == 1 and len(st_) == 1
            judge(ctx, 'one item per slot', good, '%s: items per slot' % what, '%d items are read and %d slots written per item' % (len(rd), len(st_)), det)
            if not good:
                continue
            x = rd[0]
            cp = x[3] if x[0] == 'decode' else (x[2].a[2][1] if x[2].op == 'agg' else None)
            if cp is None or cp.op != 'phi' or info is None or cp not in info['phis'] or info['phis'][cp] is None:
                ctx.undec('%s: stream position %s' % (what, short(cp)))
                continue
            e0, bs = info['phis'][cp]
            judge(ctx, 'items follow the count', e0 is after, '%s: first item' % what, 'the first item is read at %s' % short(e0), det, [e0])
            for f, nx in bs:
                if x[0] == 'decode':
                    w = add(cp, mk('declen', x[1], x[2], cp, x[4]))
                    judge(ctx, 'items follow each other', nx is w, '%s: next item' % what, 'the next item is read at %s' % short(nx), det, [nx])
                else:
                    ctx.ob('items follow each other')
                    if not (nx.op == 'posafter' and nx.a[1] is cp):
                        judge(ctx, 'items follow each other', False, '%s: next item' % what, 'the next item is read at %s' % short(nx), det, [nx])
            v = st_[0][2] if len(st_[0]) > 2 else None
            if x[0] == 'decode':
                judge(ctx, 'items are decoded as their type', x[1] == s and x[4] == hdr[1] and v is mk('dec', x[1], x[2], x[3], x[4]), '%s: item' % what, 'an item is %s' % short(v), det, [v])

# ------------------------------------------------------------ built-in types
SCALARS = ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', 'bool', 'alloc::string::String')

def c25(ctx):
    for s in SCALARS:
        cfgs = set()
        def same(what, x, det):
            pass
        # written alone
        b = method(ctx, VIS, 'create_job', s)
        wcfg = None
        if b is None:
            raise Anchor('no create_job for %s' % s)
        u = ctx.unit(b, ('graph', 'traits'), ((s, 'create_job'),))
        base = selfval(b)
        for o in (u.outs if u else ()):
            for ps, det in job_contents(ctx, s, u, o):
                good = len(ps) == 1 and ps[0].op == 'enc' and ps[0].a[0] == s and ps[0].a[1] is base
                judge(ctx, 'a value is written with the shared encoding', good, '%s: written alone' % s, 'a %s alone is written as %s' % (s, short(tuple(ps))), det, ps)
                if good:
                    one_cfg(ctx, s, 'written alone', ps[0].a[2], cfgs)
        b = method(ctx, VIS, 'serialize_shallow', s)
        u = ctx.unit(b, ('traits',), ((s, 'serialize_shallow'),)) if b is not None else None
        for o in (u.outs if u else ()):
            if is_ok(o.ret):
                ps = appended_to(o, b, 1)
                good = len(ps) == 1 and ps[0].op == 'enc' and ps[0].a[0] == s and ps[0].a[1] is selfval(b)
                judge(ctx, 'a value is written with the shared encoding', good, '%s: written inline' % s, 'a %s inside a collection is written as %s' % (s, short(tuple(ps))), path_text(o), ps)
                if good:
                    one_cfg(ctx, s, 'written inline', ps[0].a[2], cfgs)
        h = slices(ctx, s)
        if h is not None:
            one_cfg(ctx, s, 'written in a slice', h[1], cfgs)
            slice_readers(ctx, s, h)
        # read
        for tr, m, kind in ((NAT, 'from_node', 'node'), (ITEM, 'read_from_shard', 'stream')):
            b = method(ctx, tr, m, s)
            if b is None:
                raise Anchor('no %s for %s' % (m, s))
            u = ctx.unit(b, ('node', 'traits'), ((s, m),))
            for o in (u.outs if u else ()):
                if is_ok(o.ret):
                    read_scalar(ctx, s, m, u, b, o, kind, cfgs)
        # lazily: the promise for its own chunk decodes it alike
        b = method(ctx, LAZY, 'create_lazy', s)
        if b is None:
            raise Anchor('no create_lazy for %s' % s)
        u = ctx.unit(b, ('node', 'traits'), ((s, 'create_lazy'),))
        short_s = s.rsplit('::', 1)[-1]
        row = ctx.row('probe::lazy_scalar::%s::promise' % short_s)
        for o in (u.outs if u else ()):
            v = o.ret.a[2][0] if is_ok(o.ret) else None
            if v is None:
                continue
            try:
                outs = u.e.run_inst(row['inst'], [mk('rv', v)], o.st.copy())
            except Exception as x:
                ctx.undec('%s: promise: %s' % (s, x))
                continue
            node = mk('p', b['locs'][1][1] or 'a0')
            for q in outs:
                if is_ok(q.ret):
                    read_value(ctx, s, 'lazily', q, mk('payload', node), ZERO, cfgs)
        ctx.count('built-in types')
    ctx.floor('built-in types', 14)
    ctx.floor('scalar reads', 42)

def job_contents(ctx, s, u, o):
    r = []
    def got(what, ps, det):
        pass
    v = o.ret
    while v.op == 'rv':
        v = v.a[0]
    if v.op != 'agg':
        ctx.undec('%s::create_job: %s' % (s, short(v)))
        return r
    name = v.a[0]
    cands = [b for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'execute' and ctx.fx.T[b['self']].get('def') == name]
    if name.endswith('ConfiguredJob'):
        cands = [b for b in cands if any(own_job(ctx, a, s) and ctx.fx.T[a].get('def') in inner_defs(v) for a in ctx.fx.T[b['self']].get('args') or [])]
    else:
        cands = [b for b in cands if own_job(ctx, b['self'], s)]
    if len(cands) != 1:
        ctx.undec('%s::create_job: %d jobs named %s' % (s, len(cands), name))
        return r
    try:
        outs = u.e.run_inst(cands[0]['inst'], [mk('rv', v), mk('p', 'refs')], o.st.copy())
    except Exception as x:
        ctx.undec('%s: job: %s' % (s, x))
        return r
    ctx.analysed.add(cands[0]['p'])
    for q in outs:
        if is_ok(q.ret):
            r.append((list(pieces(q.ret.a[2][0])), path_text(q)))
    return r

def one_cfg(ctx, s, what, cfg, cfgs):
    ctx.ob('one configuration on every path')
    cfgs.add(cfg)
    if len(cfgs) > 1:
        ctx.violate('%s: configuration %s' % (s, what), 'a %s %s uses the configuration %s, other paths use %s' % (s, what, cfg, ', '.join(map(str, cfgs - {cfg}))))

def read_scalar(ctx, s, m, u, b, o, kind, cfgs):
    a = mk('p', b['locs'][1][1] or 'a0')
    if kind == 'node':
        D, pos = mk('payload', mk('*', a)), ZERO
    else:
        cur = mk('*', a)
        pos = terms._fld(cur, -1, 1)
        D = u.e.deref(o.st, terms._fld(cur, -1, 0))
    read_value(ctx, s, m, o, D, pos, cfgs)

def read_value(ctx, s, what, o, D, pos, cfgs):
    v = o.ret.a[2][0]
    good = v.op == 'dec' and v.a[0] == s and v.a[1] is D and v.a[2] is pos
    ctx.count('scalar reads')
    judge(ctx, 'a value is read with the shared encoding', good, '%s: read %s' % (s, what), 'a %s is read (%s) as %s' % (s, what, short(v)), path_text(o), [v])
    if good:
        one_cfg(ctx, s, 'read %s' % what, v.a[3], cfgs)
