"""Iterator values: ('it', kind, ...) and their next()."""
from terms import *

def it_seq(content, mode, lo=ZERO, hi=None):
    return mk('it', 'seq', content, lo, slen(content) if hi is None else hi, mode)

def coerce(e, st, v, ty=None):
    """Turns a value that is iterable into an iterator term."""
    if v.op == 'it':
        return v
    r = e.T.get(ty) if ty is not None else None
    if v.op == 'agg' and isinstance(v.a[0], str):
        d = v.a[0]
        if d.endswith('range::Range'):
            return mk('it', 'range', v.a[2][0], v.a[2][1])
        if d.endswith('range::RangeInclusive'):
            return mk('it', 'range', v.a[2][0], add(v.a[2][1], ONE))
        if d.endswith('range::RangeFrom'):
            return mk('it', 'from', v.a[2][0])
        if d == 'core::option::Option':
            return it_seq(seq((mk('b', v.a[2][0]),)) if v.a[1] == 1 else EMPTY, 'val')
        if d == 'array':
            return it_seq(v, 'val')
    if r is not None:
        k = r['k']
        if k == 'ref':
            t = e.ty(r['t'])
            if t['k'] in ('slice', 'array') or t['k'] == 'adt' and t['def'] == 'alloc::vec::Vec':
                if r.get('mut') and v.op != 'rv':
                    c = e.deref(st, v)
                    ref = v if v.op == 'ref' else mk('ref', ('S', v), ())
                    return mk('it', 'mut', ref, ZERO, slen(c))
                return it_seq(e.deref(st, v), 'ref')
            if t['k'] == 'adt' and 'HashMap' in t['def']:
                return it_seq(e.deref(st, v), 'kvmut' if r.get('mut') else 'kvref')
        if k == 'array':
            return it_seq(v, 'val')
        if k == 'adt':
            d = r['def']
            if d == 'alloc::vec::Vec' or 'IntoIter' in d and 'vec' in d or d.endswith('array::iter::IntoIter'):
                return it_seq(v, 'val')
            if 'HashMap' in d:
                return it_seq(v, 'kv')
            if d.endswith('slice::iter::Iter'):
                return it_seq(v, 'ref')
    return mk('it', 'opaque', v, ZERO)

def length(it):
    k = it.a[0]
    if k == 'seq':
        return sub_(it.a[3], it.a[2])
    if k == 'mut':
        return sub_(it.a[3], it.a[2])
    if k == 'range':
        return sub_(it.a[2], it.a[1])
    if k in ('map', 'rev', 'cloned', 'enum', 'peek0'):
        return length(it.a[1])
    if k == 'chunks':
        return sub_(it.a[4], it.a[3])
    if k == 'zip':
        a, b = length(it.a[1]), length(it.a[2])
        return a if a is b else (tmin(a, b) if a is not None and b is not None else None)
    if k == 'take':
        a = length(it.a[1])
        return tmin(a, it.a[2]) if a is not None else it.a[2]
    return None

def getitem(e, st, it, i):
    """Item at absolute position i of a seq/mut iterator."""
    k = it.a[0]
    if k == 'seq':
        x = elem(it.a[1], i)
        mode = it.a[4]
        if mode == 'val':
            return x
        if mode == 'ref':
            return e.mkrv(x)
        kk, vv = _kv(x)
        if mode == 'kvref':
            return mk('agg', 'tuple', 0, (e.mkrv(kk), e.mkrv(vv)))
        if mode == 'keys':
            return e.mkrv(kk)
        if mode == 'values':
            return e.mkrv(vv)
        return mk('agg', 'tuple', 0, (kk, vv))
    if k == 'mut':
        ref = it.a[1]
        return mk('ref', ref.a[0], ref.a[1] + (('ix', i),))

def _kv(x):
    import terms
    return terms._fld(x, -1, 0), terms._fld(x, -1, 1)

def setpos(it, lo=None, hi=None):
    a = list(it.a)
    if lo is not None:
        a[2] = lo
    if hi is not None:
        a[3] = hi
    return mk('it', *a)

def fork(e, st, cond):
    """[(state, bool)]"""
    r = st.facts.implies(cond, 2)
    if r is not None:
        return [(st, r)]
    s2 = st.copy()
    out = []
    if st.facts.assume(cond, True):
        out.append((st, True))
    if s2.facts.assume(cond, False):
        out.append((s2, False))
    return out

def many(e, st, r):
    """The elements of a sequence-valued item of flatten / flat_map."""
    if r.op in ('agg',) and r.a[0] == 'array':
        return seq(pieces(r))
    if r.op == 'seq':
        return r
    if r.op == 'rv':
        return many(e, st, r.a[0])
    if r.op == 'it' and r.a[0] == 'seq' and r.a[4] in ('val', 'ref'):
        return subseq(r.a[1], r.a[2], r.a[3])
    if r.op == 'it' and r.a[0] == 'cloned':
        return many(e, st, r.a[1])
    return None

def pushed(x):
    return pieces(x.a[0]) if x.op == 'many' else (mk('b', x),)

def next_(e, st, fr, it, site, back=False):
    k = it.a[0]
    if k in ('seq', 'mut'):
        lo, hi = it.a[2], it.a[3]
        out = []
        for s, b in fork(e, st, lt(lo, hi)):
            if b:
                if back:
                    h2 = sub_(hi, ONE)
                    out.append((s, getitem(e, s, it, h2), setpos(it, hi=h2)))
                else:
                    out.append((s, getitem(e, s, it, lo), setpos(it, lo=add(lo, ONE))))
            else:
                out.append((s, None, it))
        return out
    if k == 'range':
        lo, hi = it.a[1], it.a[2]
        out = []
        for s, b in fork(e, st, lt(lo, hi)):
            if b:
                if back:
                    out.append((s, sub_(hi, ONE), mk('it', 'range', lo, sub_(hi, ONE))))
                else:
                    out.append((s, lo, mk('it', 'range', add(lo, ONE), hi)))
            else:
                out.append((s, None, it))
        return out
    if k == 'from':
        return [(st, it.a[1], mk('it', 'from', add(it.a[1], ONE)))]
    if k == 'rev':
        return [(s, x, mk('it', 'rev', i2)) for s, x, i2 in next_(e, st, fr, it.a[1], site, not back)]
    if k == 'cloned':
        out = []
        for s, x, i2 in next_(e, st, fr, it.a[1], site, back):
            i2 = mk('it', 'cloned', i2)
            out.append((s, x if x is None or x == 'skip' else e.deref(s, x), i2))
        return out
    if k in ('map', 'filter', 'filter_map', 'inspect', 'map_while', 'take_while'):
        out = []
        for s, x, i2 in next_(e, st, fr, it.a[1], site, back):
            i2 = mk('it', k, i2, it.a[2])
            if x is None or x == 'skip':
                out.append((s, x, i2))
                continue
            arg = e.mkrv(x) if k in ('filter', 'inspect', 'take_while') else x
            for s2, r in e.call_value(s, fr, it.a[2], [arg], ('nx', str(site)), None):
                if k == 'map':
                    out.append((s2, r, i2))
                elif k == 'inspect':
                    out.append((s2, x, i2))
                elif k in ('filter', 'take_while'):
                    for s3, b in fork(e, s2, r):
                        out.append((s3, x if b else ('skip' if k == 'filter' else None), i2))
                else:
                    for s3, v in e.split(s2, r):
                        out.append((s3, e.payload(r, 1) if v == 1 else ('skip' if k == 'filter_map' else None), i2))
        return out
    if k == 'enum':
        out = []
        if back:
            return [(st, mk('opaqueitem', it), it)]
        for s, x, i2 in next_(e, st, fr, it.a[1], site):
            if x is None or x == 'skip':
                out.append((s, x, mk('it', 'enum', i2, it.a[2])))
            else:
                out.append((s, mk('agg', 'tuple', 0, (it.a[2], x)), mk('it', 'enum', i2, add(it.a[2], ONE))))
        return out
    if k == 'zip':
        out = []
        for s, x, a2 in next_(e, st, fr, it.a[1], str(site) + 'a', back):
            if x is None or x == 'skip':
                out.append((s, x, mk('it', 'zip', a2, it.a[2])))
                continue
            for s2, y, b2 in next_(e, s, fr, it.a[2], str(site) + 'b', back):
                i2 = mk('it', 'zip', a2, b2)
                if y is None or y == 'skip':
                    out.append((s2, y, i2))
                else:
                    out.append((s2, mk('agg', 'tuple', 0, (x, y)), i2))
        return out
    if k == 'take':
        n = it.a[2]
        out = []
        for s, b in fork(e, st, lt(ZERO, n)):
            if not b:
                out.append((s, None, it))
                continue
            for s2, x, i2 in next_(e, s, fr, it.a[1], site, back):
                out.append((s2, x, mk('it', 'take', i2, n if x == 'skip' else sub_(n, ONE))))
        return out
    if k == 'skip':
        return [(st, mk('opaqueitem', it), it)]
    if k == 'chunks':
        c, size, i, n, exact = it.a[1], it.a[2], it.a[3], it.a[4], it.a[5]
        out = []
        for s, b in fork(e, st, lt(i, n)):
            if not b:
                out.append((s, None, it))
                continue
            j = sub_(n, ONE) if back else i
            lo = mul(j, size)
            hi = add(lo, size)
            if not exact:
                hi = tmin(slen(c), hi)
            item = subseq(c, lo, hi)
            i2 = mk('it', 'chunks', c, size, i, sub_(n, ONE), exact) if back else mk('it', 'chunks', c, size, add(i, ONE), n, exact)
            out.append((s, e.mkrv(item), i2))
        return out
    if k == 'chain':
        out = []
        if it.a[1].a[0] == 'done':
            for s, x, b2 in next_(e, st, fr, it.a[2], str(site) + 'b'):
                out.append((s, x, mk('it', 'chain', it.a[1], b2)))
            return out
        for s, x, a2 in next_(e, st, fr, it.a[1], str(site) + 'a'):
            if x is None:
                for s2, y, b2 in next_(e, s, fr, it.a[2], str(site) + 'b'):
                    out.append((s2, y, mk('it', 'chain', mk('it', 'done'), b2)))
            else:
                out.append((s, x, mk('it', 'chain', a2, it.a[2])))
        return out
    if k == 'done':
        return [(st, None, it)]
    if k in ('flatten', 'flat_map'):
        # only Option / Result items: Some/Ok yields one item, the others none
        out = []
        for s, x, i2 in next_(e, st, fr, it.a[1], site, back):
            i2 = mk('it', k, i2, *it.a[2:])
            if x is None or x == 'skip':
                out.append((s, x, i2))
                continue
            xs = [(s, x)] if k == 'flatten' else e.call_value(s, fr, it.a[2], [x], ('nx', str(site)), None)
            for s2, r in xs:
                if r.op == 'agg' and r.a[0] == 'core::option::Option' or r.op == 'agg' and r.a[0] == 'core::result::Result' or (r.op in ('ret', 'elem', 'fld')):
                    good = 0 if (r.op == 'agg' and r.a[0] == 'core::result::Result' or (r.op != 'agg' and it.a[-1] == 'result')) else 1
                    for s3, v in e.split(s2, r):
                        out.append((s3, e.payload(r, good) if v == good else 'skip', i2))
                else:
                    q = many(e, s2, r)
                    out.append((s2, mk('opaqueitem', it) if q is None else mk('many', q), i2))
        return out
    if k == 'peek':
        inner, slot = it.a[1], it.a[2]
        if slot.op == 'none':
            return [(s, x, mk('it', 'peek', i2, slot)) for s, x, i2 in next_(e, st, fr, inner, site)]
        none = mk('none')
        out = []
        for s, v in e.split(st, slot):
            out.append((s, e.payload(slot, 1) if v == 1 else None, mk('it', 'peek', inner, none)))
        return out
    if k == 'repeat':
        return [(st, it.a[1], it)]
    # unknown iterator: an opaque item per call
    pos = it.a[2] if len(it.a) > 2 else ZERO
    out = []
    has = mk('ithas', it.a[1], pos)
    for s, b in fork(e, st, has):
        out.append((s, mk('itm', it.a[1], pos), mk('it', 'opaque', it.a[1], add(pos, ONE))) if b else (s, None, it))
    return out
