"""Path facts: equalities, variants, boolean conditions and linear inequalities over terms."""
from terms import *

STRUCT_AX = []   # functions term -> list of d with d <= 0

def axioms(t):
    o = t.op
    r = []
    if o == 'rem':
        r.append(add(sub_(t, t.a[1]), ONE))           # rem(x,n) <= n-1
        r.append(sub_(t, t.a[0]))
    elif o in ('min',):
        r.append(sub_(t, t.a[0])); r.append(sub_(t, t.a[1]))
    elif o == 'max':
        r.append(sub_(t.a[0], t)); r.append(sub_(t.a[1], t))
    elif o == 'div' and isint(t.a[1]) and t.a[1].a[0] > 0:
        n = t.a[1].a[0]
        r.append(sub_(scale(t, n), t.a[0]))
        r.append(sub_(t.a[0], add(scale(t, n), I(n - 1))))
    elif o == 'div':
        r.append(sub_(t, t.a[0]))
    elif o == 'ssub':
        r.append(sub_(t.a[0], t))                      # ssub(d) >= d
    for f in STRUCT_AX:
        r.extend(f(t))
    return r

def ubound(t):
    o = t.op
    b = UB.get(t)
    if o == 'len':
        b = min(b, (1 << 63) - 1) if b is not None else (1 << 63) - 1
    elif o == 'rd':
        m = (1 << (8 * t.a[1])) - 1
        b = m if b is None else min(b, m)
    elif o == 'rem' and isint(t.a[1]):
        m = t.a[1].a[0] - 1
        b = m if b is None else min(b, m)
    elif o == 'trunc':
        m = (1 << t.a[0]) - 1
        b = m if b is None else min(b, m)
    elif o == 'byte':
        b = 255
    elif o == 'min':
        bs = [x for x in (ub_lin(t.a[0]), ub_lin(t.a[1]), b) if x is not None]
        b = min(bs) if bs else None
    elif o == 'max':
        bs = [ub_lin(t.a[0]), ub_lin(t.a[1])]
        if None not in bs:
            b = max(bs) if b is None else min(b, max(bs))
    elif o == 'div':
        u, l = ub_lin(t.a[0]), lb_lin(t.a[1])
        if u is not None and l > 0:
            b = u // l if b is None else min(b, u // l)
    elif o == 'bitand':
        for x in t.a:
            if isint(x):
                b = x.a[0] if b is None else min(b, x.a[0])
    elif o == 'shr' and isint(t.a[1]):
        u = ub_lin(t.a[0])
        if u is not None:
            b = u >> t.a[1].a[0]
    return b

def ub_lin(d):
    c, m = lparts(d)
    for k, v in m.items():
        if v < 0:
            if k in SIGNED:
                return None
            continue
        u = ubound(k)
        if u is None:
            return None
        c += v * u
    return c

def lbound(t):
    o = t.op
    if o == 'min':
        return min(lb_lin(t.a[0]), lb_lin(t.a[1]))
    if o == 'max':
        return max(lb_lin(t.a[0]), lb_lin(t.a[1]))
    if o == 'div' and isint(t.a[1]) and t.a[1].a[0] > 0:
        x = lb_lin(t.a[0])
        return x // t.a[1].a[0] if x > 0 else 0
    return 0

def lb_lin(d):
    if d.op not in ('lin', 'i'):
        return lbound(d) if d not in SIGNED else -(1 << 200)
    c, m = lparts(d)
    for k, v in m.items():
        if k in SIGNED:
            return -(1 << 200)
        if v > 0:
            c += v * lbound(k)
        else:
            u = ubound(k)
            if u is None:
                return -(1 << 200)
            c += v * u
    return c

class Facts:
    __slots__ = ('b', 'q', 'v')
    def __init__(self, b=None, q=None, v=None):
        self.b = b if b is not None else {}     # atom -> bool
        self.q = q if q is not None else {}     # lin d (d <= 0) -> True
        self.v = v if v is not None else {}     # term -> variant | frozenset of excluded
    def copy(self):
        return Facts(dict(self.b), dict(self.q), dict(self.v))
    def conds(self):
        r = [a if x else mk('not', a) for a, x in self.b.items() if a.op != 'reserved']
        r += [mk('le0', d) for d in self.q]
        for t, v in self.v.items():
            if isinstance(v, frozenset):
                r.append(mk('isnot', t, tuple(sorted(v))))
            else:
                r.append(mk('is', t, v))
        return r
    def delta(self, base):
        r = [a if x else mk('not', a) for a, x in self.b.items() if a not in base.b and a.op != 'reserved']
        r += [mk('le0', d) for d in self.q if d not in base.q]
        for t, v in self.v.items():
            if base.v.get(t) != v:
                r.append(mk('isnot', t, tuple(sorted(v))) if isinstance(v, frozenset) else mk('is', t, v))
        return tuple(r)
    def meet(self, o):
        return Facts({a: x for a, x in self.b.items() if o.b.get(a) == x},
                     {d: True for d in self.q if d in o.q},
                     {t: x for t, x in self.v.items() if o.v.get(t) == x})
    def subst(self, m):
        memo = {}
        ks = frozenset(m)
        from terms import _subst
        f = Facts()
        for a, x in self.b.items():
            a2 = _subst(a, m, memo, ks)
            if a2.op == 'i':
                continue
            f.b[a2] = x
        for d in self.q:
            d2 = norm_ineq(_subst(d, m, memo, ks))
            if d2.op != 'i':
                f.q[d2] = True
        for t, v in self.v.items():
            f.v[_subst(t, m, memo, ks)] = v
        return f

    # ---- reasoning
    def leq0(self, d, depth=3, seen=None):
        """d <= 0 follows?"""
        d = norm_ineq(d)
        u = self._ub0(d)
        if u is not None and u <= 0:
            return True
        if d.op == 'i' or depth == 0:
            return False
        if d in self.q:
            return True
        c, m = lparts(d)
        if seen is None:
            seen = {d}
        cands = []
        for f in list(self.q):
            cands.append(f)
        for t in list(m):
            cands.extend(axioms(t))
        for f in list(self.q):
            for t in lparts(f)[1]:
                if t in m:
                    pass
        best = []
        for f in cands:
            cf, mf = lparts(f)
            # f <= 0 : d = d - l*f + l*f, l>0 with a common term of equal sign
            for t, v in m.items():
                w = mf.get(t)
                if w and (w > 0) == (v > 0):
                    l = v / w
                    if v % w == 0:
                        d2 = add(d, f, -(v // w))
                    else:
                        d2 = sub_(scale(d, abs(w)), scale(f, abs(v)))
                    d2 = norm_ineq(d2)
                    if d2 in seen:
                        continue
                    if v > 0 or t in SIGNED or True:
                        best.append((len(lparts(d2)[1]), d2))
        for t, v in m.items():
            if t.op == 'max' and v > 0 or t.op == 'min' and v < 0:
                rest = sub_(d, scale(t, v))
                if all(self.leq0(add(rest, scale(x, v)), depth - 1, seen) for x in t.a):
                    return True
        best.sort(key=lambda x: x[0])
        for _, d2 in best[:24]:
            if d2 in seen:
                continue
            seen.add(d2)
            if self.leq0(d2, depth - 1, seen):
                return True
        return False
    def _ub0(self, d):
        c, m = lparts(d)
        for k, v in m.items():
            if v < 0:
                if k in SIGNED:
                    return None
                if k.op in ('min', 'max', 'div'):
                    c += v * max(lbound(k), 0)
                continue
            u = ubound(k)
            if u is None:
                return None
            c += v * u
        return c
    def implies(self, c, depth=3):
        """True / False / None (unknown) for a condition term."""
        o = c.op
        if o == 'i':
            return bool(c.a[0])
        if o == 'not':
            r = self.implies(c.a[0], depth)
            return None if r is None else not r
        if c in self.b:
            return self.b[c]
        if o == 'le0':
            if self.leq0(c.a[0], depth):
                return True
            if self.leq0(sub_(ONE, c.a[0]), depth):
                return False
            return None
        if o == 'eqz':
            d = c.a[0]
            a = self.leq0(d, depth)
            b = self.leq0(scale(d, -1), depth)
            if a and b:
                return True
            if a and self.leq0(add(d, ONE), depth) or b and self.leq0(sub_(ONE, d), depth):
                return False
            return None
        if o == 'is':
            if c.a[0].op == 'agg' and isinstance(c.a[0].a[1], int) and isinstance(c.a[1], int):
                return max(c.a[0].a[1], 0) == c.a[1]
            v = self.v.get(c.a[0])
            if v is None:
                return None
            if isinstance(v, frozenset):
                return False if c.a[1] in v else None
            return v == c.a[1]
        if o == 'isnot':
            rs = [self.implies(mk('is', c.a[0], x), depth) for x in c.a[1]]
            if any(r is True for r in rs):
                return False
            return True if all(r is False for r in rs) else None
        if o == 'and':
            rs = [self.implies(x, depth) for x in c.a]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if o == 'or':
            rs = [self.implies(x, depth) for x in c.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        return None
    def assume(self, c, val=True, depth=2):
        """Adds c == val; False when that contradicts what is known."""
        while c.op == 'not':
            c, val = c.a[0], not val
        if c.op == 'i':
            return bool(c.a[0]) == val
        r = self.implies(c, depth)
        if r is not None:
            return r == val
        o = c.op
        if o == 'le0':
            d = c.a[0] if val else norm_ineq(sub_(ONE, c.a[0]))
            self.q[d] = True
            self.quot(d)
            return True
        if o == 'eqz':
            d = c.a[0]
            if val:
                self.q[norm_ineq(d)] = True
                self.q[norm_ineq(scale(d, -1))] = True
                self.quot(d)
                self.quot(scale(d, -1))
            else:
                self.b[c] = False
                if self.leq0(d, depth):
                    self.q[norm_ineq(add(d, ONE))] = True
                elif self.leq0(scale(d, -1), depth):
                    self.q[norm_ineq(sub_(ONE, d))] = True
            if val:
                self.b[c] = True
            return True
        if o == 'is':
            if val:
                self.v[c.a[0]] = c.a[1]
            else:
                v = self.v.get(c.a[0], frozenset())
                self.v[c.a[0]] = v | {c.a[1]}
            return True
        if o == 'isnot' and val:
            return all(self.assume(mk('is', c.a[0], x), False, depth) for x in c.a[1])
        if o == 'and' and val:
            return all(self.assume(x, True, depth) for x in c.a)
        if o == 'or' and not val:
            return all(self.assume(x, False, depth) for x in c.a)
        self.b[c] = val
        return True
    def quot(self, d):
        """x + 1 <= ceil(l / s) gives x * s + 1 <= l; x + 1 <= l / s gives x * s + s <= l."""
        for t, w in lparts(d)[1].items():
            if w == -1 and t.op in ('cdiv', 'div'):
                x = add(d, t)                          # x - t <= 0
                if t.op == 'cdiv':
                    x = sub_(x, ONE)
                    r = add(sub_(mul(x, t.a[1]), t.a[0]), ONE)
                else:
                    r = sub_(mul(x, t.a[1]), t.a[0])
                self.q[norm_ineq(r)] = True
            elif w == 1 and t.op in ('cdiv', 'div'):
                x = sub_(t, d)                         # t <= x
                r = sub_(t.a[0], mul(x, t.a[1]))
                if t.op == 'div':
                    r = add(sub_(r, t.a[1]), ONE)
                r = norm_ineq(r)
                if r.op != 'i':
                    self.q[r] = True
    def variant(self, t, n):
        """Known variant of t among n, or None."""
        v = self.v.get(t)
        if isinstance(v, frozenset):
            left = [i for i in range(n) if i not in v]
            return left[0] if len(left) == 1 else None
        return v
