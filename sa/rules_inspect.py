"""C23: the inspector reports what is in the file."""
import re
from core import *
from core import walk
import domain
import rules_read as R
from rules_write import judge, short

NODE = 'parcode::reader::ChunkNode'
REPORT, INFO = 'parcode::inspector::DebugReport', 'parcode::inspector::ChunkInfo'
ENTRIES = ('file_inspect', 'inspect', 'inspect_bytes')
SEAMS = ('traits', 'node', 'root')

def fields(ctx, d):
    for t in ctx.fx.T.values():
        if t.get('k') == 'adt' and t.get('def') == d:
            return [f[0] for f in t['vs'][0]['f']]
    raise Anchor('no type %s' % d)

def field(ctx, agg, d, name):
    """A public field of a report value (an aggregate or any term of that type)."""
    fs = fields(ctx, d)
    if name not in fs:
        raise Anchor('%s has no field %s' % (d, name))
    if agg.op == 'agg':
        return agg.a[2][fs.index(name)]
    return terms._fld(agg, -1, name)

def unref(t):
    while t.op in ('rv', 'ref') and len(t.a) == 1:
        t = t.a[0]
    return t

def hide(t):
    """Recursive results as plain values (their function is judged separately)."""
    m = {s: mk('inspected', s.a[0], s.a[1]) for s in subterms(t) if s.op == 'ret'}
    return subst(t, m)

def same(o, a, b):
    if a is b:
        return True
    try:
        d = sub_(a, b)
        return o.facts.leq0(d) and o.facts.leq0(scale(d, -1))
    except Exception:
        return False

def literals(ps):
    """(literal text before each placeholder, trailing text) of a compiled format template, or None."""
    i, lits, cur = 0, [], ''
    bs = []
    for p in ps:
        if not isint(p):
            return None
        bs.append(p.a[0])
    while i < len(bs):
        b = bs[i]
        if b == 0:
            return lits, cur
        if b < 0x80:
            cur += bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace')
            i += 1 + b
        elif b == 0xC0:
            lits.append(cur)
            cur = ''
            i += 1
        else:
            return None
    return None

def shown(t):
    """([(text before, value)], trailing text) of a formatted string, or None."""
    if t.op == 'str':
        return [], t.a[0]
    if t.op != 'fmt' or t.a[0] != 'format':
        return None
    x = t.a[1][0] if isinstance(t.a[1], tuple) else t.a[1]
    x = unref(x)
    if x.op != 'fmt' or x.a[0] not in ('new', 'new_v1', 'from_str', 'new_const'):
        return None
    tpl = unref(x.a[1][0])
    if tpl.op == 'str':
        return [], tpl.a[0]
    if len(x.a[1]) < 2:
        return None
    args = unref(x.a[1][1])
    tv = tpl.a[2] if tpl.op == 'agg' else None
    av = args.a[2] if args.op == 'agg' else None
    if tv is None or av is None:
        return None
    lt = literals(tv)
    if lt is None or len(lt[0]) != len(av):
        return None
    vals = []
    for a in av:
        if a.op != 'fmt' or a.a[0] != 'new_display':
            return None
        vals.append(unref(a.a[1][0]))
    return list(zip(lt[0], vals)), lt[1]

def row_fields(ctx, ty):
    """Field types, in order, of the element type of a Vec type string."""
    m = re.match(r'alloc::vec::Vec<(.*)>$', ty)
    if not m:
        return None
    for t in ctx.fx.T.values():
        if t.get('s') == m.group(1) and t.get('k') == 'adt':
            return [(f[0], ctx.fx.T[f[1]]['s']) for f in t['vs'][0]['f']]
    return None

def total_repeat(ctx, u, t, N):
    """Is t the sum of the repeat counts of the runs recorded in the payload of N? True / False / None (not understood)."""
    if t.op != 'phi':
        return None
    info = u.e.loops.get(t.a[0])
    if info is None or t not in info['phis']:
        return None
    entry, backs = info['phis'][t]
    if len(backs) != 1:
        return None
    step = sub_(backs[0][1], t)
    k = info['k']
    trips = [x[1] for x in info['exits'] if x[1] is not None]
    c, at = lparts(step)
    if c != 0 or len(at) != 1 or list(at.values()) != [1]:
        return None if not resolved(step) else False
    a = next(iter(at))
    if a.op != 'fld' or a.a[0].op != 'elem':
        return None
    src, ix = a.a[0].a[0], a.a[0].a[1]
    if src.op != 'dec' or ix is not k:
        return None
    fs = row_fields(ctx, str(src.a[0]))
    if fs is None or [x[1] for x in fs] != ['u32', 'u32']:
        return None if fs is None else False
    good = entry is ZERO and a.a[2] == fs[1][0] and src.a[1] is mk('payload', N) and src.a[2] == I(8) and trips and all(x is slen(src) for x in trips)
    return bool(good)

def stats(ctx, u, o, who, N, cnt, info, det):
    d = field(ctx, info, INFO, 'distribution_info')
    P = mk('payload', N)
    F = o.facts
    rule = 'the recorded statistics are reported'
    if d.op != 'agg':
        ctx.ob(rule)
        return ctx.undec('%s: distribution not understood: %s' % (who, short(d)))
    dec = [e for e in walk(o.ev) if e[0] == 'decode' and e[2] is P]
    failed = any(e[0] == 'fail' and e[1] == 'decode' for e in walk(o.ev))
    unread = any(e[0] == 'fail' and e[1] == 'read_raw' for e in walk(o.ev))
    if d.a[1] == 1:                                   # Some
        s = shown(d.a[2][0])
        ctx.ob(rule)
        if s is None:
            return ctx.undec('%s: distribution text not understood' % who)
        vals, tail = s
        ctx.count('reported statistics')
        texts = [x[0] for x in vals[1:]] + [tail]
        if dec and not failed:
            want = {}
            for i, (x, t) in enumerate(zip(vals, texts)):
                v = x[1]
                if 'item' in t:
                    judge(ctx, rule, v is mk('rd', 'le', 8, P, ZERO), '%s: number of items' % who, 'the report shows %s as the number of items, not the recorded total' % short(v), det, [v])
                    want['item'] = 1
                elif 'shard' in t:
                    r = total_repeat(ctx, u, v, N)
                    if r is None:
                        if v is cnt:
                            continue
                        if not resolved(v):
                            ctx.undec('%s: number of shards not understood: %s' % (who, short(v)))
                            continue
                        r = False
                    judge(ctx, rule, r, '%s: number of shards' % who, 'the report shows %s as the number of shards, not the sum of the recorded runs' % short(v), det)
            if not want:
                ctx.undec('%s: which statistic is shown is not understood' % who)
        else:
            good = len(vals) == 1 and (same(o, vals[0][1], mk('rd', 'le', 4, P, ZERO)) or same(o, vals[0][1], cnt))
            if unread:
                good = False
            judge(ctx, rule, good, '%s: number of buckets' % who, 'the report shows %s, which is not the recorded shard count' % short(tuple(v for _, v in vals)), det, [v for _, v in vals])
        return
    # None
    ctx.ob(rule)
    if F.leq0(cnt) or unread:
        return
    L = slen(P)
    if F.leq0(sub_(L, I(7))):
        if F.leq0(sub_(L, I(3))) or F.leq0(sub_(I(5), L)) or F.implies(eqz(sub_(L, I(4)))) is False:
            return
        for c in F.conds():
            if c.op == 'not' and c.a[0].op == 'eq' and contains(c, P):
                return                                # the recorded number differs from the number of children
            if c.op == 'not' and c.a[0].op == 'eqz' and contains(c, P) and any(s.op == 'rd' for s in subterms(c)):
                return
        w = [c for c in F.conds() if contains(c, P)]
        if resolved(*w) and not any(c.op == 'not' for c in w if any(s.op == 'rd' for s in subterms(c))):
            return ctx.violate('%s: map statistics missing' % who, 'a chunk whose payload is the shard count is reported without statistics', det)
        return ctx.undec('%s: map statistics missing on a path' % who)
    if dec and failed:
        return
    if not dec and not F.leq0(sub_(I(8), L)):
        g = F.copy()
        if not g.assume(eqz(sub_(L, I(11))), True, 3) or g.implies(eqz(sub_(L, I(11)))) is not True:
            return ctx.undec('%s: no statistics on a path whose payload length is not decided' % who)
    if not dec:
        return judge(ctx, rule, False, '%s: vector statistics missing' % who, 'a payload that could be a vector container is not looked at', det, [c for c in F.conds() if contains(c, P)])
    ex = [c for c in F.conds() if any(s.op == 'dec' for s in subterms(c))]
    if any(s.op in ('phi', 'k') for c in ex for s in subterms(c)):
        return ctx.undec('%s: no statistics although the runs were decoded' % who)
    judge(ctx, rule, False, '%s: vector statistics missing' % who, 'a vector container is reported without its statistics', det, ex)

def chunk_info(ctx, u, o, who, info, N, rec):
    """One report entry against the chunk it is about."""
    det = path_text(o)
    if info.op != 'agg' or info.a[0] != INFO:
        return ctx.undec('%s: the entry is %s' % (who, short(info)))
    ps = [q for q in R.chain(ctx, u, 'probe::node::props', [mk('rv', N)], o.st) if q.ret.op == 'agg' and q.ret.a[0] == 'tuple']
    if not ps:
        return ctx.undec('%s: chunk accessors' % who)
    for q in ps:
        against(ctx, u, o, q, who, info, N, rec, det, q.ret.a[2])

def against(ctx, u, o, q, who, info, N, rec, det, p):
    off, ln, cnt, meta, plen = p
    ctx.count('report entries on paths')
    o = type('O', (), {'ev': o.ev, 'facts': q.facts, 'st': q.st, 'ret': o.ret})
    for name, want in (('offset', off), ('total_length', ln), ('child_count', cnt), ('payload_size', plen)):
        v = field(ctx, info, INFO, name)
        judge(ctx, 'an entry shows what is recorded', same(o, v, want), '%s: %s' % (who, name), 'the entry shows %s as %s, the chunk records %s' % (short(v), name, short(want)), det, [v])
    mp = R.meta_parts(ctx, type('X', (), {'u': u}), meta, o)
    if mp is None:
        ctx.undec('%s: meta byte' % who)
    else:
        v = field(ctx, info, INFO, 'is_chunkable')
        good = v is mp[0]
        if not good:
            a, b = o.facts.implies(v), o.facts.implies(mp[0])
            good = a is not None and a == b
            if not good:
                f1, f2 = o.facts.copy(), o.facts.copy()
                good = f1.assume(v, True, 2) and f2.assume(mk('not', v) if v.op != 'not' else v.a[0], True, 2) and f1.implies(mp[0]) is True and f2.implies(mp[0]) is False
        judge(ctx, 'an entry shows what is recorded', good, '%s: chunkable flag' % who, 'the entry shows %s as the chunkable flag, the chunk records %s' % (short(v), short(mp[0])), det, [v])
        algorithm(ctx, o, who, field(ctx, info, INFO, 'compression_algo'), mp, det)
    kids(ctx, u, o, who, field(ctx, info, INFO, 'children'), N, cnt, rec, det)
    stats(ctx, u, o, who, N, cnt, info, det)

def num(t, byte, v):
    """Value of a number term for one value of a byte, or None."""
    if t is byte:
        return v
    if isint(t):
        return t.a[0]
    if t.op == 'lin':
        c, at = lparts(t)
        for a, w in at.items():
            x = num(a, byte, v)
            if x is None:
                return None
            c += w * x
        return c
    if t.op in ('bitand', 'bitor', 'bitxor', 'shr', 'shl', 'rem', 'div', 'mul') and len(t.a) == 2:
        x, y = num(t.a[0], byte, v), num(t.a[1], byte, v)
        if x is None or y is None or t.op in ('rem', 'div') and y == 0:
            return None
        return {'bitand': x & y, 'bitor': x | y, 'bitxor': x ^ y, 'shr': x >> y if y >= 0 else None, 'shl': (x << y) & 255 if 0 <= y < 64 else None, 'rem': x % y if y else None, 'div': x // y if y else None, 'mul': x * y}[t.op]
    if t.op == 'trunc':
        x = num(t.a[1], byte, v)
        return None if x is None else x & ((1 << t.a[0]) - 1)
    return None

def truth(c, byte, v):
    """Value of a condition for one value of a byte, or None."""
    if c.op == 'not':
        x = truth(c.a[0], byte, v)
        return None if x is None else not x
    if c.op in ('and', 'or'):
        xs = [truth(a, byte, v) for a in c.a]
        if c.op == 'and':
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if c.op in ('le0', 'eqz'):
        x = num(c.a[0], byte, v)
        return None if x is None else (x <= 0 if c.op == 'le0' else x == 0)
    if c.op == 'eq':
        x, y = num(c.a[0], byte, v), num(c.a[1], byte, v)
        return None if x is None or y is None else x == y
    return None

NAMES = {0: 'none', 1: 'lz4'}
def algorithm(ctx, o, who, t, mp, det):
    """The text must fit every value of the meta byte the path allows (all 256 are tried)."""
    rule = 'an entry names the algorithm of the chunk'
    s = shown(t)
    ctx.ob(rule)
    if s is None:
        return ctx.undec('%s: algorithm text not understood: %s' % (who, short(t)))
    vals, tail = s
    text = ''.join(x[0] for x in vals) + tail
    said = [i for i, n in NAMES.items() if n in text.lower()]
    byte, mid = mp[2], mp[1]
    conds = [c for c in o.facts.conds() if contains(c, byte)]
    possible = {}
    for v in range(256):
        vs = [truth(c, byte, v) for c in conds]
        if False in vs:
            continue
        i = num(mid, byte, v)
        if i is None:
            return ctx.undec('%s: algorithm number %s' % (who, short(mid)))
        possible.setdefault(i, []).append((v, None in vs))
    if vals:
        bad = [i for i in possible if i not in NAMES and not any(x is mid or all(num(x, byte, v) == i for v, _ in possible[i]) for _, x in vals)]
        if bad:
            judge(ctx, rule, False, '%s: algorithm number' % who, 'algorithm %d is shown as %s' % (bad[0], short(vals[0][1])), det, [v for _, v in vals])
    bad = [i for i in possible if (not said and not vals if i in NAMES else bool(said)) or said and i in NAMES and said != [i]]
    if bad:
        if any(w for i in bad for _, w in possible[i]):
            return ctx.undec('%s: algorithm name' % who)
        ctx.violate('%s: algorithm name' % who, 'a chunk with algorithm %s is reported as %r' % (', '.join(map(str, bad)), text), det)

def kids(ctx, u, o, who, ch, N, cnt, rec, det):
    rule = 'an entry lists every child once, in order'
    ctx.ob(rule)
    if any_op(hide(ch), BADOPS) or ch.op == 'unknown':
        return ctx.undec('%s: children not understood: %s' % (who, short(ch)))
    ps = pieces(ch)
    if not ps:
        if o.facts.leq0(cnt):
            return
        why = [e for e in walk(o.ev) if e[0] == 'fail' and e[1] in ('children', 'child')]
        if resolved(tuple(o.facts.conds())) or why:
            return ctx.violate('%s: children missing' % who, 'a chunk with children is reported without them%s' % (' after they could not be read' if why else ''), det)
        return ctx.undec('%s: no children listed on a path' % who)
    if len(ps) != 1 or ps[0].op != 'rep':
        return ctx.undec('%s: children list %s' % (who, short(ch)))
    n, k, alts = ps[0].a[0], ps[0].a[1], ps[0].a[2]
    judge(ctx, rule, same(o, n, cnt), '%s: number of children' % who, 'the entry lists %s children of %s' % (short(n), short(cnt)), det, [n])
    for conds, items in alts:
        its = list(items)
        cs = [c for c in conds]
        if len(its) != 1:
            return judge(ctx, rule, False, '%s: child entries' % who, '%d entries are listed for one child under %s' % (len(its), short(hide(mk('and', *cs)) if cs else ONE)), det, [hide(c) for c in cs] + [hide(x) for x in its])
        v = its[0].a[0] if its[0].op == 'b' else its[0]
        if v.op == 'fld' and v.a[0].op == 'ret' and v.a[1] == 0:
            r = v.a[0]
            args = [unref(a) for a in r.a[1]]
            hs = [a for a in args if a.op == 'child' or any(s.op == 'child' for s in subterms(a))]
            want = mk('child', N, k)
            if len(hs) == 1:
                judge(ctx, rule, hs[0] is want, '%s: child order' % who, 'the entry at position i describes %s, expected child i' % short(hs[0]), det, hs)
            else:
                ctx.undec('%s: which child is inspected is not understood: %s' % (who, short(tuple(args))))
            rec.add(str(r.a[0]))
        elif v.op == 'agg' and v.a[0] == INFO:
            hv = hide(v)
            judge(ctx, rule, False, '%s: child entry' % who, 'a child is reported as %s instead of being inspected' % short(hv), det, [hv])
        else:
            ctx.undec('%s: child entry %s' % (who, short(v)))

def printed(ctx):
    """The printed report shows every entry, in order."""
    rule = 'the printed report shows every entry'
    row = ctx.row('probe::read::report_display')
    todo, done = [], set()
    u = ctx.unit(row, (), keep=('fmt',), split_paths=True, maxrec=1)
    if u is None:
        return
    tree = terms._fld(mk('*', mk('p', row['locs'][1][1])), -1, 'tree')
    if 'tree' not in fields(ctx, REPORT):
        raise Anchor('DebugReport has no field tree')
    rec = {}
    for o in u.outs:
        if is_ok(o.ret):
            shows(ctx, u, o, 'printed report', tree, rec)
    while set(rec) - done:
        p = sorted(set(rec) - done)[0]
        done.add(p)
        for b in [b for b in ctx.fx.F.values() if b['p'] == p]:
            v = ctx.unit(b, (), keep=(b['m'],), split_paths=True, maxrec=1)
            T = mk('*', mk('p', b['locs'][rec[p] + 1][1]))
            for o in v.outs if v is not None else ():
                if is_ok(o.ret):
                    shows(ctx, v, o, 'printed entry', T, rec)

def shows(ctx, u, o, who, T, rec):
    rule = 'the printed report shows every entry'
    ctx.count('printing paths')
    det = path_text(o)
    seen = set()
    for c in o.facts.conds():
        for s in subterms(c):
            if s.op == 'fmt' and s.a[0] in ('new_display', 'new_debug'):
                seen.add(unref(s.a[1][0]))
    for n in ('payload_size', 'child_count', 'compression_algo'):
        f = terms._fld(T, -1, n)
        ctx.ob(rule)
        if not any(contains(x, f) or n == 'child_count' and contains(x, terms._fld(T, -1, 'children')) for x in seen):
            if seen:
                ctx.violate('%s: %s not shown' % (who, n), 'a line of the printed report does not show %s' % n, det)
            else:
                ctx.undec('%s: what is printed is not understood' % who)
    ch = terms._fld(T, -1, 'children')
    loops = [e for e in o.ev if e[0] == 'loop' and any(x[0] == 'call' and x[1] == 'recursive' for x in walk([e]))]
    ctx.ob(rule)
    if not loops and not any(e[0] == 'call' and e[1] == 'recursive' for e in o.ev):
        if o.facts.leq0(slen(ch)):
            return
        if any(x[0] == 'call' for x in walk(o.ev)) or not resolved(tuple(hide(c) for c in o.facts.conds())):
            return ctx.undec('%s: how children are printed is not understood' % who)
        return ctx.violate('%s: children not printed' % who, 'an entry is printed without its children', det)
    base = ZERO
    for e in o.ev:
        if e in loops:
            count, alts, k = e[2], e[3], u.e.loops[e[1]]['k']
        elif e[0] == 'call' and e[1] == 'recursive':
            count, alts, k = I(1), (((), (e,)),), ZERO
        else:
            continue
        for conds, evs in alts:
            calls = [x for x in evs if x[0] == 'call' and x[1] == 'recursive']
            if len(calls) != 1:
                judge(ctx, rule, False, '%s: printed children' % who, 'a child is printed %d times' % len(calls), det, [hide(c) for c in conds])
                continue
            args = [unref(u.e.deref(o.st, a) if a.op in ('ref',) else a) for a in calls[0][4]]
            want = elem(ch, add(base, k))
            hs = [(i, a) for i, a in enumerate(args) if a is want or a.op == 'elem' and a.a[0] is ch]
            if len(hs) != 1:
                ctx.undec('%s: which child is printed is not understood' % who)
                continue
            judge(ctx, rule, hs[0][1] is want, '%s: order of printed children' % who, 'at position i %s is printed' % short(hs[0][1]), det, [hs[0][1]])
            rec[calls[0][2]] = hs[0][0]
        base = add(base, count)
    judge(ctx, rule, same(o, base, slen(ch)), '%s: number of printed children' % who, '%s children of %s are printed' % (short(base), short(slen(ch))), det, [base])

def c23(ctx):
    rec = set()
    for e in ENTRIES:
        if not ctx.here(e):
            continue
        u = ctx.unit(ctx.row('probe::read::' + e), SEAMS, keep=('inspect', 'inspect_file', 'inspect_bytes'), split_paths=True, maxrec=1)
        if u is None:
            continue
        for o in u.outs:
            if not is_ok(o.ret):
                continue
            ctx.count('successful paths of inspection')
            det = path_text(o)
            rep = o.ret.a[2][0]
            roots = {ev[1] for ev in walk(o.ev) if ev[0] == 'root_node'}
            if rep.op != 'agg' or rep.a[0] != REPORT or len(roots) != 1:
                ctx.undec('%s: the report is %s' % (e, short(rep)))
                continue
            f = next(iter(roots))
            N = mk('rootnode', f)
            ctx.ob('the report starts at the root of the file')
            size = None
            for q in R.chain(ctx, u, 'probe::read::file_size', [mk('rv', f)], o.st):
                size = q.ret
            v = field(ctx, rep, REPORT, 'file_size')
            if size is None:
                ctx.undec('%s: file size' % e)
            else:
                judge(ctx, 'the report shows the size of the file', same(o, v, size), '%s: file size' % e, 'the report shows %s as the file size, expected %s' % (short(v), short(size)), det, [v])
            off = None
            for q in R.chain(ctx, u, 'probe::node::props', [mk('rv', N)], o.st):
                if q.ret.op == 'agg':
                    off = q.ret.a[2][0]
            v = field(ctx, rep, REPORT, 'root_offset')
            if off is not None:
                judge(ctx, 'the report starts at the root of the file', same(o, v, off), '%s: root offset' % e, 'the report shows %s as the root offset, expected %s' % (short(v), short(off)), det, [v])
            v = field(ctx, rep, REPORT, 'global_version')
            good = v == I(4) or f.op == 'agg' and any(s.op == 'rd' and s is v for s in subterms(f))
            judge(ctx, 'the report shows the format version', good, '%s: version' % e, 'the report shows %s as the format version' % short(v), det, [v])
            chunk_info(ctx, u, o, e, field(ctx, rep, REPORT, 'tree'), N, rec)
    done = set()
    while rec - done:
        p = sorted(rec - done)[0]
        done.add(p)
        rows = [b for b in ctx.fx.F.values() if b['p'] == p]
        for b in rows:
            u = ctx.unit(b, SEAMS, keep=(b['m'],), split_paths=True, maxrec=1)
            if u is None:
                continue
            N = None
            for l in b['locs'][1:b['argc'] + 1]:
                t, v = ctx.fx.T[l[0]], mk('p', l[1] or '?')
                if t.get('k') == 'ref':
                    t, v = ctx.fx.T[t['t']], mk('*', v)
                if t.get('k') == 'adt' and t.get('def') == NODE:
                    N = v
            nm = re.sub(r'::<[^>]*>', '', p).rsplit('::', 1)[-1]
            if N is None:
                ctx.undec('%s: no chunk parameter' % nm)
                continue
            for o in u.outs:
                if is_ok(o.ret):
                    chunk_info(ctx, u, o, nm, o.ret.a[2][0], N, rec)
                elif not (o.ret.op == 'agg' and 'Result' in str(o.ret.a[0])):
                    chunk_info(ctx, u, o, nm, o.ret, N, rec)
    ctx.count('recursive inspections', len(done))
    printed(ctx)
    R.geometry(ctx)
    R.child_lists(ctx)
    ctx.floor('successful paths of inspection', 6)
