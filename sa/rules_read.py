"""Reader rules: opening, chunk geometry, decompression, errors, collections, maps, iterators."""
from core import *
from core import walk
import domain, terms, units
from engine import St, Undecided
from models import NONE, some
import rules_write as W
from rules_write import judge, short, is_some

ONE, ZERO = I(1), I(0)

def chain(ctx, u, path, args, st):
    """Outcomes of a further call in the state a previous call of the same unit ended in."""
    row = ctx.row(path)
    try:
        s = st.copy()
        s.ev = ()
        outs = u.e.run_inst(row['inst'], args, s)
    except Undecided as x:
        ctx.undec('%s: %s' % (path, x))
        return []
    for i in u.e.analysed:
        ctx.analysed.add(ctx.fx.F[i]['p'])
    ctx.count('outcomes', len(outs))
    return outs

def okval(t):
    return t.a[2][0] if is_ok(t) else None

# ------------------------------------------------------------ opened files
OPENERS = (('from_bytes', 1), ('open_bytes', 1), ('open', 0), ('file_open', 0))

class Opened:
    """One successful way of opening a file: reader value, its bytes D, and the state."""
    def __init__(self, name, u, o, f, D):
        self.name, self.u, self.o, self.f, self.D = name, u, o, f, D

def file_data(u, o, ev):
    """The bytes an opener works on: its argument, or the mapped / read content of the file."""
    for x in walk(ev):
        if x[0] == 'io' and x[1] in ('mmap', 'read_file', 'read_to_end'):
            return mk('iores', x[1], x[2])
    return None

def same_len(t):
    """The length of the file and the length of its mapping are the same number."""
    m = {}
    for s in subterms(t):
        if s.op == 'filelen':
            f = s.a[0].a[1] if s.a[0].op == 'iores' else None
            if f is not None:
                m[s] = slen(mk('iores', 'mmap', f))
    return m

def opened(ctx):
    if 'opened' in ctx.cache:
        return ctx.cache['opened']
    out = []
    for n, mem in OPENERS:
        if not ctx.here(n):
            continue
        row = ctx.row('probe::read::' + n)
        u = ctx.unit(row, ('traits',))
        if u is None:
            continue
        ctx.count('openers')
        for o in u.outs:
            f = okval(o.ret)
            if f is None:
                continue
            if mem:
                D = mk('p', 'd')
            else:
                c = [s for s in subterms(f) if s.op == 'iores' and s.a[0] in ('mmap', 'read')]
                c.sort(key=lambda s: s.a[0] != 'read')          # only its length may go by the name of the mapping
                D = c[0] if c else None
                if D is None:
                    ctx.undec('%s: no file content in the opened reader' % n)
                    continue
            m = {}
            for s in list(subterms(f)) + [s for d in o.facts.conds() for s in subterms(d)]:
                if s.op == 'filelen' or s.op == 'len' and s.a[0].op == 'iores' and s.a[0].a[0] == 'mmap' and s.a[0] is not D:
                    m[s] = slen(D)
            if m:
                if impossible(o.facts, m):
                    continue
                f = subst(f, m)
                o.st.facts = o.facts.subst(m)
                o.facts = o.st.facts
            out.append(Opened(n, u, o, f, D))
        if not any(x.name == n for x in out) and not any(murky(o.ev, o.facts) for o in u.outs):
            ctx.violate('%s: never opens' % n, '%s rejects every file' % n, '\n\n'.join(str(path_text(o)) for o in u.outs[:4]))
    ctx.cache['opened'] = out
    return out

def impossible(facts, m):
    """The conditions contradict each other once the terms of m are the same number."""
    g = facts.subst(m)
    for d in facts.q:
        d = norm_ineq(subst(d, m))
        if d.op == 'i' and d.a[0] > 0 or d.op != 'i' and g.leq0(sub_(ONE, d), 3):
            return True
    for a, x in facts.b.items():
        a = subst(a, m)
        if a.op == 'i' and bool(a.a[0]) != bool(x):
            return True
    return False

def known_byte(facts, D, pos):
    """The value of D[pos] the facts pin down, or None."""
    for a, x in facts.b.items():
        if not x:
            continue
        if a.op == 'eq':
            for l, r in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                l, r = unopt(l), unopt(r)
                if l is None or r is None:
                    continue
                if l.op == 'sub' and l.a[0] is D:
                    ps = pieces(r)
                    if all(p.op == 'b' and isint(p.a[0]) for p in ps):
                        d = sub_(pos, l.a[1])
                        if isint(d) and 0 <= d.a[0] < len(ps):
                            return ps[d.a[0]].a[0].a[0]
        if a.op == 'eqbytes':
            for i, n in enumerate(a.a[1]):
                if elem(a.a[0], I(i)) is elem(D, pos):
                    return n
        if a.op == 'eqz':
            c, m = lparts(a.a[0])
            if len(m) == 1:
                k, v = next(iter(m.items()))
                if abs(v) == 1:
                    n = -c * v
                    if k.op == 'elem' and k.a[0] is D and k.a[1] is pos:
                        return n
                    if k.op == 'rd' and k.a[2] is D:
                        d = sub_(pos, k.a[3])
                        if isint(d) and 0 <= d.a[0] < k.a[1]:
                            j = d.a[0] if k.a[0] == 'le' else k.a[1] - 1 - d.a[0]
                            return (n >> (8 * j)) & 255
    return None

def unopt(t):
    while True:
        if t.op == 'rv':
            t = t.a[0]
        elif is_some(t) or is_ok(t):
            t = t.a[2][0]
        elif t.op == 'agg' and t.a[0] == 'none':
            return None
        else:
            return t

TRAILER = (80, 65, 82, 52, 4, 0)

def c13(ctx):
    for op in opened(ctx):
        n, D, F = op.name, op.D, op.o.facts
        L = slen(D)
        w = murky(op.o.ev, F)
        if w:
            ctx.opaque[n] = w
        ctx.ob('an accepted file is at least 26 bytes long')
        if not F.leq0(sub_(I(26), L)):
            ctx.violate('%s: short file accepted' % n, '%s accepts data shorter than the trailer' % n, path_text(op.o))
        for i, b in enumerate(TRAILER):
            pos = add(L, I(i - 26))
            k = known_byte(F, D, pos)
            what = 'magic' if i < 4 else 'version'
            ctx.ob('the trailer %s is checked' % what)
            if k != b:
                ctx.violate('%s: %s not checked' % (n, what), '%s accepts a file whose %s byte %d is %s' % (n, what, i, 'not checked' if k is None else k), path_text(op.o))
        rejects(ctx, op)
        ctx.count('accepting paths')
    ctx.floor('openers', 4)
    ctx.floor('accepting paths', 4)
    for n, mem in OPENERS:
        if not ctx.here(n):
            continue
        u = ctx.unit(ctx.row('probe::read::' + n), ('traits',))
        if u is None:
            continue
        for o in u.outs:
            e = err_of(o.ret)
            if e is None or any(x[0] == 'fail' for x in walk(o.ev)):
                continue
            ctx.ob('a rejected file is a format error')
            v = variant_name(ctx.fx, e)
            if v not in (None, 'Format'):
                ctx.violate('%s: rejection category' % n, '%s rejects a file with %s instead of a format error' % (n, v), path_text(o))
    root_inside(ctx)

def rejects(ctx, op):
    pass

def roots(ctx):
    """(opened, root node value, outcome) for every successful way to the root chunk."""
    if 'roots' in ctx.cache:
        return ctx.cache['roots']
    out = []
    for op in opened(ctx):
        for o in chain(ctx, op.u, 'probe::read::file_root_node', [mk('rv', op.f)], op.o.st):
            v = okval(o.ret)
            if v is not None:
                out.append((op, v, o))
    ctx.cache['roots'] = out
    return out

def props_of(ctx, op, node, o):
    """(offset, length, child count, meta value, payload length, outcome) through the public accessors."""
    r = []
    for q in chain(ctx, op.u, 'probe::node::props', [mk('rv', node)], o.st):
        if q.ret.op == 'agg' and q.ret.a[0] == 'tuple':
            r.append(tuple(q.ret.a[2]) + (q,))
    if not r:
        ctx.undec('%s: no outcome of the chunk accessors' % op.name)
    return r

def meta_parts(ctx, op, meta, o):
    for q in chain(ctx, op.u, 'probe::parts::meta_parts', [mk('rv', meta)], o.st):
        if q.ret.op == 'agg' and q.ret.a[0] == 'tuple':
            return tuple(q.ret.a[2])
    return None

def root_inside(ctx):
    for op, v, o, p in [(op, v, o, p) for op, v, o in roots(ctx) for p in props_of(ctx, op, v, o)]:
        off, ln = p[0], p[1]
        L = slen(op.D)
        wo, wl = mk('rd', 'le', 8, op.D, add(L, I(-20))), mk('rd', 'le', 8, op.D, add(L, I(-12)))
        ctx.count('root paths')
        judge(ctx, 'the root is the chunk the trailer names', off is wo and ln is wl, '%s: root reference' % op.name,
              'the root chunk is taken at %s length %s' % (short(off), short(ln)), path_text(o), [off, ln])
        ctx.ob('the root chunk lies inside the data')
        if not o.facts.leq0(sub_(add(off, ln), L)):
            ctx.violate('%s: root outside the data' % op.name, 'a root chunk reaching beyond the data is accepted', path_text(o))
        ctx.ob('the root chunk is not empty')
        if not o.facts.leq0(sub_(ONE, ln)):
            ctx.violate('%s: empty root' % op.name, 'a root chunk of length 0 is accepted', path_text(o))
    ctx.floor('root paths', 4)

# ------------------------------------------------------------ chunk geometry (C05 reader side)
def canon(t):
    """Powers of two: remainder and mask, quotient and shift are the same."""
    m = {}
    for s in subterms(t):
        if s.op == 'rem' and isint(s.a[1]):
            n = s.a[1].a[0]
            if n > 0 and n & (n - 1) == 0:
                m[s] = mk('bitand', I(n - 1), s.a[0])
        elif s.op == 'div' and isint(s.a[1]):
            n = s.a[1].a[0]
            if n > 0 and n & (n - 1) == 0:
                m[s] = mk('shr', s.a[0], I(n.bit_length() - 1))
    return subst(t, m) if m else t

def bits_of(t, b):
    """t as a list of bit numbers of byte b (low first), or None: through masks, shifts and remainders."""
    if t is b:
        return list(range(8))
    if t.op == 'bitand' and len(t.a) == 2:
        for c, x in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if isint(c):
                v = bits_of(x, b)
                return None if v is None else trim([(q if (c.a[0] >> i) & 1 else None) for i, q in enumerate(v)])
    if t.op == 'shr' and isint(t.a[1]):
        v = bits_of(t.a[0], b)
        return None if v is None else trim(v[t.a[1].a[0]:])
    if t.op == 'rem' and isint(t.a[1]):
        n = t.a[1].a[0]
        if n > 0 and n & (n - 1) == 0:
            v = bits_of(t.a[0], b)
            return None if v is None else trim(v[:n.bit_length() - 1])
    if t.op == 'div' and isint(t.a[1]):
        n = t.a[1].a[0]
        if n > 0 and n & (n - 1) == 0:
            v = bits_of(t.a[0], b)
            return None if v is None else trim(v[n.bit_length() - 1:])
    if t.op == 'trunc':
        v = bits_of(t.a[1], b)
        return None if v is None else trim(v[:t.a[0]])
    return None
def trim(v):
    while v and v[-1] is None:
        v.pop()
    return v

def bit_cond(facts, b):
    """Whether the facts say bit 0 of byte b is set (True/False/None)."""
    for cand in (mk('bitand', ONE, b), mk('bitand', b, ONE), mk('rem', b, I(2))):
        if isinstance(cand, Tm):
            r = facts.implies(eqz(cand))
            if r is not None:
                return not r
            r = facts.implies(eqz(sub_(cand, ONE)))
            if r is not None:
                return r
    return None

def nodes(ctx):
    """Every way to reach a chunk: (label, opened, node value, outcome, offset, length) for roots and their children."""
    if 'nodes' in ctx.cache:
        return ctx.cache['nodes']
    out = []
    for op, v, o in roots(ctx):
        L = slen(op.D)
        out.append(('root chunk', op, v, o, mk('rd', 'le', 8, op.D, add(L, I(-20))), mk('rd', 'le', 8, op.D, add(L, I(-12)))))
        if op.name != 'from_bytes':
            continue
        for p in props_of(ctx, op, v, o):
            pend = add(p[0], p[4])
            i = mk('p', 'i')
            domain.UB[i] = (1 << 63) - 1
            for q in chain(ctx, op.u, 'probe::node::child', [mk('rv', v), i], p[5].st):
                c = okval(q.ret)
                if c is not None:
                    at = add(pend, mul(I(16), i))
                    out.append(('child chunk', op, c, q, mk('rd', 'le', 8, op.D, at), mk('rd', 'le', 8, op.D, add(at, I(8)))))
    ctx.cache['nodes'] = out
    return out

def geometry(ctx):
    """Meta byte, child count, payload end and children are read from where the layout puts them."""
    for label, op, v, o, woff, wlen, p in [x + (p,) for x in nodes(ctx) for p in props_of(ctx, x[1], x[2], x[3])]:
        who = '%s %s' % (op.name, label)
        off, ln, cnt, meta, plen, q = p
        ctx.count('chunk paths')
        det = path_text(o)
        judge(ctx, 'a chunk sits at its reference', off is woff and ln is wlen, '%s: position' % who, 'offset %s length %s, expected %s and %s' % (short(off), short(ln), short(woff), short(wlen)), det, [off, ln])
        mb = elem(op.D, add(add(off, ln), I(-1)))
        mp = meta_parts(ctx, op, meta, q)
        if mp is None:
            ctx.undec('%s: meta byte parts' % who)
            continue
        judge(ctx, 'the meta byte is the last byte', mp[2] is mb, '%s: meta byte' % who, 'the meta byte is %s, expected the last byte of the chunk' % short(mp[2]), det, [mp[2]])
        ch = q.facts.implies(mp[0])
        if ch is None:
            ch = bit_cond(q.facts, mb)
        if ch is None:
            ctx.undec('%s: whether the chunk has children is not decided on the path' % who)
            continue
        if ch:
            want = mk('rd', 'le', 4, op.D, add(add(off, ln), I(-5)))
            judge(ctx, 'the child count precedes the meta byte', cnt is want, '%s: child count' % who, 'the child count is %s, expected the u32 before the meta byte' % short(cnt), det, [cnt])
            wp = sub_(add(ln, I(-5)), mul(I(16), want))
            judge(ctx, 'the payload ends before the child table', plen is wp, '%s: payload end' % who, 'the payload has length %s, expected %s' % (short(plen), short(wp)), det, [plen])
            ctx.ob('the child table fits in the chunk')
            if not q.facts.leq0(scale(wp, -1)) and resolved(plen):
                ctx.violate('%s: child table larger than the chunk' % who, 'a chunk whose child table does not fit is accepted', det)
        else:
            judge(ctx, 'chunks without the flag have no children', cnt is ZERO, '%s: children without flag' % who, 'a chunk without the chunkable bit has %s children' % short(cnt), det, [cnt])
            judge(ctx, 'the payload ends before the meta byte', plen is add(ln, I(-1)), '%s: payload end' % who, 'the payload has length %s, expected all but the meta byte' % short(plen), det, [plen])
    ctx.floor('chunk paths', 6)

def child_lists(ctx):
    """children() yields exactly get_child_by_index(0..count), in order."""
    for op, v, o, p in [(op, v, o, p) for op, v, o in roots(ctx) if op.name == 'from_bytes' for p in props_of(ctx, op, v, o)]:
        cnt = p[2]
        k = mk('p', 'i')
        domain.UB[k] = (1 << 63) - 1
        single = set()
        for q in chain(ctx, op.u, 'probe::node::child', [mk('rv', v), k], o.st):
            c = okval(q.ret)
            if c is not None:
                single.add(c)
        found = False
        for q in chain(ctx, op.u, 'probe::node::children', [mk('rv', v)], o.st):
            c = okval(q.ret)
            if c is None:
                continue
            found = True
            ps = pieces(c)
            ctx.ob('children lists every child in order')
            if cnt is ZERO:
                if ps and resolved(c):
                    ctx.violate('children: of a chunk without children', 'children() of a chunk without children yields %s' % short(c), path_text(q))
                continue
            if len(ps) != 1 or ps[0].op != 'rep':
                if not ps and q.facts.leq0(cnt):
                    continue
                judge(ctx, 'children lists every child in order', False, 'children: other list', 'children() yields %s' % short(c), path_text(q), [c])
                continue
            rep = ps[0]
            judge(ctx, 'children lists every child in order', rep.a[0] is cnt, 'children: count', 'children() yields %s items for %s recorded children' % (short(rep.a[0]), short(cnt)), path_text(q), [rep.a[0]])
            for cond, body in rep.a[2]:
                b = [subst(x, {rep.a[1]: k}) for x in body]
                good = len(b) == 1 and b[0].op == 'b' and b[0].a[0] in single
                judge(ctx, 'children lists every child in order', good, 'children: item', 'the item at position i of children() is %s, which get_child_by_index(i) never returns' % short(seq(tuple(b))), path_text(q), b)
        if not found:
            ctx.undec('children: no successful outcome')
        ctx.count('child lists')
    ctx.floor('child lists', 2)

def formats(ctx):
    """MetaByte, ChildRef and trailer encodings."""
    for c in (0, 1):
        for m in range(8):
            u = ctx.unit(ctx.row('probe::parts::meta_new'), (), args=(I(c), I(m)))
            if u is None:
                continue
            for o in u.outs:
                mp = None
                for q in chain(ctx, u, 'probe::parts::meta_parts', [mk('rv', o.ret)], o.st):
                    mp = q.ret.a[2] if q.ret.op == 'agg' else None
                ctx.count('meta values')
                want = c | (m << 1)
                if mp is None or not resolved(*mp):
                    ctx.undec('MetaByte::new(%d, %d): %s' % (c, m, short(o.ret)))
                    continue
                judge(ctx, 'the meta byte has the documented bits', isint(mp[2]) and mp[2].a[0] == want, 'MetaByte::new: byte', 'MetaByte::new(%d, %d) is the byte %s, documented %d' % (c, m, short(mp[2]), want), '', [mp[2]])
    for b in range(256):
        u = ctx.unit(ctx.row('probe::parts::meta_from'), (), args=(I(b),))
        if u is None:
            continue
        for o in u.outs:
            mp = None
            for q in chain(ctx, u, 'probe::parts::meta_parts', [mk('rv', o.ret)], o.st):
                mp = q.ret.a[2] if q.ret.op == 'agg' else None
            ctx.count('meta values')
            if mp is None:
                ctx.undec('MetaByte::from_byte(%d)' % b)
                continue
            t = [x.a[0] if isint(x) else None for x in mp]
            want = [b & 1, (b >> 1) & 7, b]
            judge(ctx, 'the meta byte is read with the documented bits', t == want, 'MetaByte::from_byte: parts', 'byte %d is read as chunkable %s, algorithm %s, byte %s' % (b, t[0], t[1], t[2]), '', list(mp))
    ctx.floor('meta values', 272)
    r = mk('p', 'c')
    u = ctx.unit(ctx.row('probe::parts::childref_to'), (), args=(mk('rv', r),))
    fo, fl = childref_fields(ctx)
    if u is not None and fo is not None:
        want = (mk('le', 8, terms._fld(r, -1, fo)), mk('le', 8, terms._fld(r, -1, fl)))
        for o in u.outs:
            got = seq(pieces(o.ret))
            judge(ctx, 'a child reference is two u64 little-endian', got is seq(want), 'ChildRef::to_bytes', 'a child reference is encoded as %s' % short(got), '', [got])
            ctx.count('child references')
    b = mk('p', 'b')
    u = ctx.unit(ctx.row('probe::parts::childref_from'), (), args=(mk('rv', b),))
    if u is not None and fo is not None:
        for o in u.outs:
            v = okval(o.ret)
            if v is None:
                continue
            a, c = terms._fld(v, -1, fo), terms._fld(v, -1, fl)
            good = a is mk('rd', 'le', 8, b, ZERO) and c is mk('rd', 'le', 8, b, I(8))
            judge(ctx, 'a child reference is read as two u64 little-endian', good, 'ChildRef::from_bytes', 'a child reference is read as offset %s length %s' % (short(a), short(c)), path_text(o), [a, c])
            ctx.count('child references')
    ctx.floor('child references', 2)

def childref_fields(ctx):
    for r in ctx.fx.T.values():
        if r['k'] == 'adt' and r['def'].endswith('format::ChildRef'):
            fs = [f[0] for f in r['vs'][0]['f']]
            if 'offset' in fs and 'length' in fs:
                return 'offset', 'length'
    return None, None

# ------------------------------------------------------------ decompression (C07 reader side)
def decompression(ctx):
    """Every payload handed out was decompressed by the algorithm the chunk's own meta byte names."""
    ids = {v: k for k, v in W.comp_ids(ctx).items()}
    n = 0
    for label, op, v, o, woff, wlen, p in [x + (p,) for x in nodes(ctx) for p in props_of(ctx, x[1], x[2], x[3])]:
        who = '%s %s' % (op.name, label)
        off, ln, cnt, meta, plen, q = p
        mp = meta_parts(ctx, op, meta, q)
        if mp is None:
            continue
        raw = subseq(op.D, off, add(off, plen))
        for r in chain(ctx, op.u, 'probe::node::read_raw', [mk('rv', v)], q.st):
            c = okval(r.ret)
            ds = [x for x in walk(r.ev) if x[0] == 'decompress']
            if c is None:
                if not any(x[0] == 'fail' for x in walk(r.ev)):
                    known_id = [i for i in ids if r.facts.implies(eqz(sub_(mp[1], I(i)))) is True]
                    ctx.ob('an algorithm that is compiled in is available')
                    e = err_of(r.ret)
                    if known_id and variant_name(ctx.fx, e) == 'Compression':
                        ctx.violate('%s: known algorithm refused' % who, 'a chunk compressed with algorithm %d cannot be read' % known_id[0], path_text(r))
                continue
            n += 1
            if not ds:
                judge(ctx, 'the payload is decompressed', False, '%s: not decompressed' % who, 'a payload is handed out without being decompressed', path_text(r), [c])
                continue
            x = ds[-1]
            if len(ds) > 1:
                judge(ctx, 'decompressed once', False, '%s: decompressed %d times' % (who, len(ds)), 'a payload is decompressed %d times' % len(ds), path_text(r))
            judge(ctx, 'the payload of this chunk is decompressed', x[2] is raw, '%s: decompressed bytes' % who, '%s is decompressed instead of the payload of the chunk' % short(x[2]), path_text(r), [x[2]])
            ctx.ob('the algorithm is the recorded one')
            name = alg_name(x[1])
            if name is None:
                ctx.undec('%s: algorithm %s' % (who, short(x[1])))
            else:
                want = [i for i, t in ids.items() if t == name]
                got = [i for i in range(8) if r.facts.implies(eqz(sub_(mp[1], I(i)))) is True]
                if not want:
                    ctx.undec('%s: algorithm %s has no id' % (who, name))
                elif got != want:
                    ctx.violate('%s: algorithm for id %s' % (who, got[0] if got else 'any'), 'a chunk recorded with algorithm %s is decompressed by %s (id %d)' % (got[0] if got else 'any', name, want[0]), path_text(r))
    ctx.count('payload reads', n)
    ctx.floor('payload reads', 4)

def alg_name(t):
    while t.op in ('rv',):
        t = t.a[0]
    return t.a[0] if t.op == 'agg' and isinstance(t.a[0], str) else None

def c05(ctx):
    W.written_layout(ctx)
    formats(ctx)
    geometry(ctx)
    child_lists(ctx)

