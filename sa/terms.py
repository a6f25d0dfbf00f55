"""Interned terms and their normal forms (linear arithmetic, byte sequences, structured values)."""
from math import gcd

class Tm:
    __slots__ = ('op', 'a', 'id', '_sub')
    def __repr__(self):
        return show(self)

TAB = {}
CNT = [0]
def mk(op, *a):
    key = (op,) + a
    t = TAB.get(key)
    if t is None:
        t = Tm()
        t.op, t.a, t.id, t._sub = op, a, CNT[0], None
        CNT[0] += 1
        TAB[key] = t
    return t

def I(n):
    return mk('i', int(n))
ZERO, ONE = I(0), I(1)
UNIT = mk('agg', 'tuple', 0, ())

def isint(t):
    return t.op == 'i'

# ---- linear arithmetic -------------------------------------------------------
def lparts(t):
    if t.op == 'i':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def lmake(c, m):
    ks = [(k, v) for k, v in m.items() if v != 0]
    if not ks:
        return I(c)
    if len(ks) == 1 and c == 0 and ks[0][1] == 1:
        return ks[0][0]
    ks.sort(key=lambda kv: kv[0].id)
    return mk('lin', c, tuple(ks))

def add(x, y, ky=1):
    cx, mx = lparts(x)
    cy, my = lparts(y)
    c = cx + ky * cy
    for k, v in my.items():
        mx[k] = mx.get(k, 0) + ky * v
    return lmake(c, mx)

def sub_(x, y):
    return add(x, y, -1)

def scale(x, n):
    c, m = lparts(x)
    return lmake(c * n, {k: v * n for k, v in m.items()})

def mul(x, y):
    if isint(x):
        return scale(y, x.a[0])
    if isint(y):
        return scale(x, y.a[0])
    cx, mx = lparts(x)
    cy, my = lparts(y)
    r = I(cx * cy)
    if cy:
        r = add(r, lmake(0, {k: v * cy for k, v in mx.items()}))
    if cx:
        r = add(r, lmake(0, {k: v * cx for k, v in my.items()}))
    for k, v in mx.items():
        for k2, v2 in my.items():
            r = add(r, scale(mul_atom(k, k2), v * v2))
    return r

def mfactors(k):
    return list(k.a[0]) if k.op == 'mul' else [k]

def mul_atom(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'div' and x.a[1] is y:                # (n / y) * y
            return sub_(x.a[0], rem(x.a[0], y))
    fs = sorted(mfactors(a) + mfactors(b), key=lambda t: t.id)
    return mk('mul', tuple(fs))

def div(x, y):
    if isint(y) and y.a[0] == 1:
        return x
    if isint(x) and isint(y) and y.a[0]:
        return I(x.a[0] // y.a[0])
    if isint(y) and y.a[0] > 0:
        c, m = lparts(x)
        n = y.a[0]
        if all(v % n == 0 for v in m.values()) and c % n == 0:
            return lmake(c // n, {k: v // n for k, v in m.items()})
    return mk('div', x, y)

def rem(x, y):
    if isint(x) and isint(y) and y.a[0]:
        return I(x.a[0] % y.a[0])
    if isint(y) and y.a[0] == 1:
        return ZERO
    return mk('rem', x, y)

def cdiv(x, y):
    if isint(x) and isint(y) and y.a[0]:
        return I(-(-x.a[0] // y.a[0]))
    return mk('cdiv', x, y)

def tmin(x, y):
    d = sub_(x, y)
    if isint(d):
        return x if d.a[0] <= 0 else y
    return mk('min', *sorted((x, y), key=lambda t: t.id))

def tmax(x, y):
    d = sub_(x, y)
    if isint(d):
        return x if d.a[0] >= 0 else y
    return mk('max', *sorted((x, y), key=lambda t: t.id))

# ---- conditions --------------------------------------------------------------
def norm_ineq(d):
    """d <= 0, divided by the gcd of the coefficients (rounded to keep integers)."""
    c, m = lparts(d)
    if not m:
        return d
    g = 0
    for v in m.values():
        g = gcd(g, abs(v))
    if g > 1:
        c = -((-c) // g)      # sum <= -c  ->  sum/g <= floor(-c/g)
        m = {k: v // g for k, v in m.items()}
    return lmake(c, m)

def le0(d):
    d = norm_ineq(d)
    if isint(d):
        return I(1 if d.a[0] <= 0 else 0)
    return mk('le0', d)

def lt(a, b):
    return le0(add(sub_(a, b), ONE))

def le(a, b):
    return le0(sub_(a, b))

def mkeq(a, b):
    """Equality of two non-numeric values."""
    if a is b:
        return I(1)
    if a.op == 'typeid' and b.op == 'typeid':
        return I(0)
    return mk('eq', *sorted((a, b), key=lambda t: t.id))
def eqz(d):
    c, m = lparts(d)
    if not m:
        return I(1 if c == 0 else 0)
    first = min(m.items(), key=lambda kv: kv[0].id)
    if first[1] < 0:
        c, m = -c, {k: -v for k, v in m.items()}
    return mk('eqz', lmake(c, m))

def neg(c):
    if c.op == 'i':
        return I(1 - c.a[0])
    if c.op == 'not':
        return c.a[0]
    if c.op == 'le0':
        return le0(sub_(ONE, c.a[0]))
    return mk('not', c)

# ---- sequences ---------------------------------------------------------------
def piece_len(p):
    o = p.op
    if o == 'b':
        return ONE
    if o in ('le', 'be'):
        return I(p.a[0])
    if o == 'fill':
        return p.a[1]
    if o == 'all':
        return slen(p.a[0])
    if o == 'rep':
        count, bv, alts = p.a
        if len(alts) == 1:
            l = seqlen_pieces(alts[0][1])
            if not contains(l, bv):
                return mul(count, l)
        return mk('len', p)
    return mk('len', p)

def seqlen_pieces(ps):
    r = ZERO
    for p in ps:
        r = add(r, piece_len(p))
    return r

ARRLEN = {}
def slen(v):
    o = v.op
    if v in ARRLEN:
        return I(ARRLEN[v])
    if o == 'seq':
        return seqlen_pieces(v.a[0])
    if o == 'sub':
        return sub_(v.a[2], v.a[1])
    if o == 'uninitvec':
        return v.a[1]
    if o == 'str':
        return I(len(v.a[0].encode()))
    if o == 'agg' and v.a[0] == 'array':
        return I(len(v.a[2]))
    if o == 'ixupd':
        return slen(v.a[0])
    return mk('len', v)

def pieces(v):
    if v.op == 'seq':
        return v.a[0]
    if v.op == 'agg' and v.a[0] == 'array':
        return tuple(mk('b', x) for x in v.a[2])
    if v.op == 'str':
        return tuple(mk('b', I(c)) for c in v.a[0].encode())
    return (mk('all', v),)

def seq(ps):
    out = []
    for p in ps:
        o = p.op
        if o == 'all':
            v = p.a[0]
            if v.op in ('seq', 'str') or (v.op == 'agg' and v.a[0] == 'array'):
                out.extend(pieces(v))
                continue
            if v.op == 'sub' and sub_(v.a[2], v.a[1]) is ZERO:
                continue
            # adjacent slices of one value join
            if out and v.op == 'sub' and out[-1].op == 'all' and out[-1].a[0].op == 'sub':
                w = out[-1].a[0]
                if w.a[0] is v.a[0] and w.a[2] is v.a[1]:
                    out[-1] = mk('all', subseq(v.a[0], w.a[1], v.a[2]))
                    continue
        elif o == 'le' and p.a[1].op == 'i':
            n = p.a[1].a[0]
            out.extend(mk('b', I((n >> (8 * i)) & 255)) for i in range(p.a[0]))
            continue
        elif o == 'be' and p.a[1].op == 'i':
            n = p.a[1].a[0]
            out.extend(mk('b', I((n >> (8 * (p.a[0] - 1 - i))) & 255)) for i in range(p.a[0]))
            continue
        elif o == 'fill' and isint(p.a[1]):
            if 0 <= p.a[1].a[0] <= 64:
                out.extend([mk('b', p.a[0])] * p.a[1].a[0])
                continue
        elif o == 'rep':
            q = norm_rep(p)
            if q is not p:
                out.extend(seq(q).a[0] if isinstance(q, tuple) and seq(q).op == 'seq' else pieces(seq(q)))
                continue
        out.append(p)
    if len(out) == 1 and out[0].op == 'all':
        return out[0].a[0]
    return mk('seq', tuple(out))

EMPTY = mk('seq', ())

def bv(depth):
    return mk('bv', depth)

def max_bv(t, memo=None):
    r = 0
    for s in subterms(t):
        if s.op == 'rep':
            r = max(r, s.a[1].a[0] + 1)
    return r

def mkrep(count, k, alts):
    """alts: tuple of (conds, pieces); k is the iteration symbol to bind."""
    if all(not ps for _, ps in alts):
        return ()
    d = 0
    for cs, ps in alts:
        for p in ps:
            d = max(d, max_bv(p))
        for c in cs:
            d = max(d, max_bv(c))
    b = bv(d)
    alts = tuple((tuple(subst(c, {k: b}) for c in cs), tuple(subst(p, {k: b}) for p in ps)) for cs, ps in alts)
    if len(alts) == 1:
        alts = (((), alts[0][1]),)
    return (mk('rep', count, b, alts),)

def norm_rep(p):
    """A copy loop over consecutive elements of one value is that slice of the value."""
    count, b, alts = p.a
    if len(alts) != 1:
        return p
    ps = alts[0][1]
    if not ps:
        return ()
    if count is ZERO:
        return ()
    if len(ps) == 1 and ps[0].op == 'b':
        x = ps[0].a[0]
        if not contains(x, b):
            return (mk('fill', x, count),)
        if x.op == 'elem' and not contains(x.a[0], b):
            st = sub_(x.a[1], b)
            if not contains(st, b):
                return (mk('all', subseq(x.a[0], st, add(st, count))),)
    if len(ps) == 1 and ps[0].op == 'all' and ps[0].a[0].op == 'sub':
        s, lo, hi = ps[0].a[0].a
        # chunks visited in order
        if not contains(s, b):
            r = chunk_cover(s, lo, hi, b, count)
            if r is not None:
                return (mk('all', r),)
    return p

def chunk_cover(s, lo, hi, b, count):
    n = slen(s)
    # lo = b*size ; hi = min(n, b*size+size) ; count = cdiv(n,size)
    if count.op == 'cdiv' and count.a[0] is n:
        size = count.a[1]
        if lo is mul(b, size) and hi is tmin(n, add(lo, size)):
            return s
    return None

def subseq(v, a, b):
    n = slen(v)
    if a is ZERO and b is n:
        return v
    d = sub_(b, a)
    if v.op == 'sub':
        return subseq(v.a[0], add(v.a[1], a), add(v.a[1], b))
    if v.op in ('seq', 'str') or (v.op == 'agg' and v.a[0] == 'array'):
        if d is ZERO:
            return EMPTY
        ps = pieces(v)
        off, out, started = ZERO, [], False
        i = 0
        while i < len(ps):
            p = ps[i]
            l = piece_len(p)
            end = add(off, l)
            if not started:
                if off is a:
                    started = True
                else:
                    da = sub_(a, off)
                    if isint(da) and da.a[0] > 0 and p.op in ('all', 'fill'):
                        de = sub_(end, a)
                        inside = isint(de) and de.a[0] > 0 or (not isint(l))
                        if isint(de) and de.a[0] <= 0:
                            off = end; i += 1
                            continue
                        if inside:
                            started = True
                            # split the piece
                            if p.op == 'all':
                                rest = mk('all', subseq(p.a[0], da, l))
                            else:
                                rest = mk('fill', p.a[0], sub_(l, da))
                            ps = ps[:i] + (rest,) + ps[i + 1:]
                            off = a
                            continue
                    off = end; i += 1
                    continue
            if off is b:
                return seq(out)
            db = sub_(b, off)
            de = sub_(end, b)
            if isint(de) and de.a[0] < 0 or end is b or (not isint(de)):
                if not isint(de) and p.op in ('all', 'fill') and isint(db):
                    if p.op == 'all':
                        out.append(mk('all', subseq(p.a[0], ZERO, db)))
                    else:
                        out.append(mk('fill', p.a[0], db))
                    return seq(out)
                out.append(p)
                off = end; i += 1
                continue
            # b falls inside p
            if p.op == 'all':
                out.append(mk('all', subseq(p.a[0], ZERO, db)))
                return seq(out)
            if p.op == 'fill':
                out.append(mk('fill', p.a[0], db))
                return seq(out)
            break
        if started and off is b:
            return seq(out)
    return mk('sub', v, a, b)

def elem(v, i):
    if v.op == 'sub':
        return elem(v.a[0], add(v.a[1], i))
    if v.op == 'agg' and v.a[0] == 'array' and isint(i) and i.a[0] < len(v.a[2]):
        return v.a[2][i.a[0]]
    if v.op == 'seq':
        ps = v.a[0]
        if len(ps) == 1:
            p = ps[0]
            if p.op == 'fill':
                return p.a[0]
            if p.op == 'rep' and len(p.a[2]) == 1 and len(p.a[2][0][1]) == 1 and p.a[2][0][1][0].op == 'b':
                return subst(p.a[2][0][1][0].a[0], {p.a[1]: i})
        off = ZERO
        for p in ps:
            if off is i and p.op == 'b':
                return p.a[0]
            l = piece_len(p)
            d = sub_(i, off)
            if p.op == 'all' and (d is ZERO or (isint(d) and isint(l) and 0 <= d.a[0] < l.a[0])):
                return elem(p.a[0], d)
            if p.op == 'all' and not isint(d) and len(ps) == 1:
                return elem(p.a[0], d)
            if p.op == 'rep' and d is ZERO and len(p.a[2]) == 1 and len(p.a[2][0][1]) == 1 and p.a[2][0][1][0].op == 'b' :
                return subst(p.a[2][0][1][0].a[0], {p.a[1]: ZERO})
            if p.op == 'le' and isint(d) and 0 <= d.a[0] < p.a[0]:
                return mk('byte', p.a[1], d.a[0])
            off = add(off, l)
    if v.op == 'ixupd' and v.a[1] is i:
        return v.a[2]
    if v.op == 'ixupd' and isint(sub_(v.a[1], i)):
        return elem(v.a[0], i)
    if v.op == 'str' and isint(i):
        bs = v.a[0].encode()
        if i.a[0] < len(bs):
            return I(bs[i.a[0]])
    return mk('elem', v, i)

def splice(v, a, b, new):
    """v with positions a..b replaced by new (same length)."""
    n = slen(v)
    if a is ZERO and b is n:
        return new
    left, right = subseq(v, ZERO, a), subseq(v, b, n)
    return seq((mk('all', left), mk('all', new), mk('all', right)))

def ixset(v, i, x):
    if v.op == 'agg' and v.a[0] == 'array' and isint(i) and i.a[0] < len(v.a[2]):
        f = list(v.a[2]); f[i.a[0]] = x
        return mk('agg', 'array', 0, tuple(f))
    if v.op == 'seq':
        off = ZERO
        ps = v.a[0]
        for j, p in enumerate(ps):
            if off is i and p.op == 'b':
                return seq(ps[:j] + (mk('b', x),) + ps[j + 1:])
            off = add(off, piece_len(p))
    if v.op == 'ixupd' and v.a[1] is i:
        return mk('ixupd', v.a[0], i, x)
    return mk('ixupd', v, i, x)

def rd(kind, w, v):
    """Integer of w bytes stored in v (kind 'le' or 'be')."""
    if v.op == 'seq':
        ps = v.a[0]
        if len(ps) == 1 and ps[0].op == kind and ps[0].a[0] == w:
            return ps[0].a[1]
        if len(ps) == w and all(p.op == 'b' for p in ps):
            xs = [p.a[0] for p in ps]
            return rd_list(kind, w, xs, v)
    if v.op == 'agg' and v.a[0] == 'array':
        return rd_list(kind, w, list(v.a[2]), v)
    if v.op == 'sub':
        return mk('rd', kind, w, v.a[0], v.a[1])
    return mk('rd', kind, w, v, ZERO)

def rd_list(kind, w, xs, v):
    if len(xs) == w:
        if all(isint(x) for x in xs):
            ys = xs if kind == 'le' else xs[::-1]
            return I(sum(x.a[0] << (8 * i) for i, x in enumerate(ys)))
        if all(x.op == 'elem' for x in xs) and len({x.a[0] for x in xs}) == 1:
            o = xs[0].a[1]
            if all(x.a[1] is add(o, I(j)) for j, x in enumerate(xs)):
                return mk('rd', kind, w, xs[0].a[0], o)
            o = xs[-1].a[1]
            if all(x.a[1] is add(o, I(w - 1 - j)) for j, x in enumerate(xs)):
                return mk('rd', 'be' if kind == 'le' else 'le', w, xs[0].a[0], o)
        if all(x.op == 'byte' for x in xs) and len({x.a[0] for x in xs}) == 1 and [x.a[1] for x in xs] == list(range(w)) and kind == 'le':
            return xs[0].a[0]
    return mk('rd', kind, w, v, ZERO)

# ---- structure ---------------------------------------------------------------
def kids(t):
    for x in t.a:
        if isinstance(x, Tm):
            yield x
        elif isinstance(x, tuple):
            yield from kids_t(x)

def kids_t(x):
    for y in x:
        if isinstance(y, Tm):
            yield y
        elif isinstance(y, tuple):
            yield from kids_t(y)

def subterms(t):
    """Frozen set of all subterms (cached)."""
    s = t._sub
    if s is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u._sub is not None:
                stack.pop()
                continue
            pend = [k for k in kids(u) if k._sub is None]
            if pend:
                stack.extend(pend)
                continue
            r = {u}
            for k in kids(u):
                r |= k._sub
            u._sub = frozenset(r)
            stack.pop()
        s = t._sub
    return s

def contains(t, x):
    return x in subterms(t)

def any_op(t, ops):
    return any(s.op in ops for s in subterms(t))

REBUILD = {}
def rebuild(op, a):
    f = REBUILD.get(op)
    return f(*a) if f else mk(op, *a)
def _lin(c, ks):
    r = I(c)
    for k, v in ks:
        r = add(r, scale(k, v))
    return r
REBUILD['lin'] = _lin
def _mul(fs):
    r = ONE
    for f in fs:
        r = mul(r, f)
    return r
REBUILD['mul'] = _mul
REBUILD['div'] = div
REBUILD['rem'] = rem
REBUILD['cdiv'] = cdiv
REBUILD['min'] = tmin
REBUILD['max'] = tmax
REBUILD['le0'] = le0
REBUILD['eqz'] = eqz
REBUILD['not'] = neg
REBUILD['seq'] = seq
REBUILD['sub'] = subseq
REBUILD['elem'] = elem
REBUILD['len'] = lambda v: slen(v) if v.op not in ('rep', 'enc', 'acc', 'cmp') else (piece_len(v) if v.op == 'rep' else mk('len', v))
REBUILD['ixupd'] = lambda v, i, x: ixset(v, i, x)
REBUILD['rd'] = lambda k, w, v, o: mk('rd', k, w, v, o) if v.op not in ('seq', 'sub') else rd(k, w, subseq(v, o, add(o, I(w))))

def _deref(v):
    return v.a[0] if v.op == 'rv' else mk('*', v)
REBUILD['*'] = _deref
NAMES = {}   # (adt path, variant) -> field names
def field_index(kind, var, name):
    if isinstance(name, int):
        return name
    ns = NAMES.get((kind, max(var, 0)))
    return ns.index(name) if ns and name in ns else None
def _fld(b, var, name):
    if b.op == 'agg' and b.a[1] == max(var, 0):
        i = field_index(b.a[0], var, name)
        if i is not None and i < len(b.a[2]):
            return b.a[2][i]
    if b.op == 'upd':
        for k, v in b.a[1]:
            if k == (var, name):
                return v
        return _fld(b.a[0], var, name)
    return mk('fld', b, var, name)
def setfld(b, var, name, x):
    if b.op == 'agg' and b.a[1] == max(var, 0):
        i = field_index(b.a[0], var, name)
        if i is not None and i < len(b.a[2]):
            f = list(b.a[2]); f[i] = x
            return mk('agg', b.a[0], b.a[1], tuple(f))
    ups = {}
    base = b
    if b.op == 'upd':
        base, ups = b.a[0], dict(b.a[1])
    ups[(var, name)] = x
    return mk('upd', base, tuple(sorted(ups.items(), key=lambda kv: (kv[0][0], str(kv[0][1])))))
def _upd(base, ups):
    for (var, name), x in ups:
        base = setfld(base, var, name, x)
    return base
REBUILD['upd'] = _upd
REBUILD['fld'] = _fld

SIGNED = set()
UB = {}      # term -> inclusive upper bound from its type

def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo, frozenset(m))

def _subst(t, m, memo, ks):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not (subterms(t) & ks):
        memo[t] = t
        return t
    a = tuple(_subst(x, m, memo, ks) if isinstance(x, Tm) else (_subst_t(x, m, memo, ks) if isinstance(x, tuple) else x) for x in t.a)
    r = rebuild(t.op, a)
    memo[t] = r
    if t in UB and r.op not in ('i', 'lin') and r not in UB:
        UB[r] = UB[t]              # an instance of a term has its type
        if t in SIGNED:
            SIGNED.add(r)
    return r

def _subst_t(x, m, memo, ks):
    return tuple(_subst(y, m, memo, ks) if isinstance(y, Tm) else (_subst_t(y, m, memo, ks) if isinstance(y, tuple) else y) for y in x)

# ---- display -----------------------------------------------------------------
def show(t, d=0, lim=12):
    if not isinstance(t, Tm):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d, lim) for x in t) + ')'
        return str(t)
    o, a = t.op, t.a
    if d > lim:
        return '..'
    s = lambda x: show(x, d + 1, lim)
    if o == 'i':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'p':
        return '$' + str(a[0])
    if o == '*':
        return '*' + s(a[0])
    if o == 'rv':
        return '&' + s(a[0])
    if o == 'ref':
        return '&mut ' + show_root(a[0]) + ''.join(show_pe(e) for e in a[1])
    if o == 'fld':
        return s(a[0]) + ('.' + str(a[2]) if a[1] < 0 else '<%d>.%s' % (a[1], a[2]))
    if o == 'lin':
        r = []
        for k, v in a[1]:
            r.append((('-' if v == -1 else ('' if v == 1 else '%d*' % v)) + s(k)))
        if a[0]:
            r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'mul':
        return '(' + '*'.join(s(x) for x in a[0]) + ')'
    if o == 'le0':
        return '[' + s(a[0]) + ' <= 0]'
    if o == 'eqz':
        return '[' + s(a[0]) + ' == 0]'
    if o == 'not':
        return '!' + s(a[0])
    if o == 'agg':
        k = a[0].rsplit('::', 1)[-1] if isinstance(a[0], str) else str(a[0])
        if k == 'tuple':
            return '(' + ', '.join(s(x) for x in a[2]) + ')'
        if k == 'array':
            return '[' + ', '.join(s(x) for x in a[2]) + ']'
        nm = {('Result', 0): 'Ok', ('Result', 1): 'Err', ('Option', 0): 'None', ('Option', 1): 'Some'}.get((k, a[1]), k + ('#%d' % a[1] if a[1] else ''))
        return nm + ('(' + ', '.join(s(x) for x in a[2]) + ')' if a[2] else '')
    if o == 'seq':
        return '<' + ' | '.join(s(x) for x in a[0]) + '>'
    if o == 'b':
        return s(a[0])
    if o == 'le':
        return 'le%d(%s)' % (a[0] * 8, s(a[1]))
    if o == 'all':
        return s(a[0]) + '..'
    if o == 'rep':
        return 'rep(%s < %s: %s)' % (s(a[1]), s(a[0]), ' || '.join((('{' + ', '.join(s(c) for c in cs) + '} ') if cs else '') + ' | '.join(s(p) for p in ps) for cs, ps in a[2]))
    if o == 'bv':
        return 'i%d' % a[0]
    if o == 'k':
        return 'k%s' % a[0]
    if o == 'sub':
        return '%s[%s..%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'elem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'rd':
        return 'rd_%s%d(%s @ %s)' % (a[0], a[1] * 8, s(a[2]), s(a[3]))
    if o == 'len':
        return 'len(%s)' % s(a[0])
    return o + '(' + ', '.join(show(x, d + 1, lim) for x in a) + ')'

def show_root(r):
    return r[0] + ':' + ','.join(show(x, 3, 8) if isinstance(x, Tm) else str(x) for x in r[1:])

def show_pe(e):
    if e[0] == 'f':
        return '.' + str(e[3] if e[3] is not None else e[2])
    return '{' + ','.join(show(x, 3, 8) if isinstance(x, Tm) else str(x) for x in e) + '}'

CC = ['child_count']       # the field of a chunk handle that its public method child_count() reports
