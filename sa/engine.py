"""Path-partitioned abstract interpretation of monomorphised MIR.

Every path of an entry point is followed once, loops are summarised by a fix point over one generic iteration,
library calls are replaced by models (models.py).  The result of an entry point is a set of outcomes: the returned
term, the facts assumed on the path, and the ordered observable events (sink writes, locks, dynamic calls ...)."""
from terms import *
import itertools
from domain import Facts, UB, SIGNED
import terms

class Undecided(Exception):
    pass

# Loops and frames are numbered over all units: what is known of a loop index (its type, its bounds) is a global fact.
FIDS = {}
FIDN = itertools.count(10)

class Outcome:
    __slots__ = ('ret', 'facts', 'ev', 'st')
    def __init__(self, ret, st):
        self.ret, self.facts, self.ev, self.st = ret, st.facts, st.ev, st

class St:
    __slots__ = ('m', 'facts', 'ev')
    def __init__(self, m=None, facts=None, ev=()):
        self.m, self.facts, self.ev = m if m is not None else {}, facts or Facts(), ev
    def copy(self):
        return St(dict(self.m), self.facts.copy(), self.ev)
    def emit(self, *e):
        self.ev = self.ev + (e,)

BOXY = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')

class Body:
    def __init__(self, row):
        self.row = row
        self.n = len(row['bbs'])
        self.bbs = row['bbs']
        self.succ = [self._succ(b['t']) if not b['cl'] else [] for b in self.bbs]
        self._order()
        self._loops()
    def _succ(self, t):
        k = t['t']
        if k == 'goto':
            return [t['to']]
        if k == 'switch':
            return list(dict.fromkeys([b for _, b in t['vs']] + ([t['else']] if t['else'] is not None and t['else'] >= 0 else [])))
        if k in ('drop', 'assert'):
            return [t['to']]
        if k == 'call':
            return [t['to']] if t['to'] is not None and t['to'] >= 0 else []
        return []
    def _order(self):
        seen, post = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.reach = seen
    def _loops(self):
        order = sorted(self.reach, key=lambda b: self.rpo[b])
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a = n
                    while a != p:
                        while self.rpo[a] > self.rpo[p]:
                            a = idom[a]
                        while self.rpo[p] > self.rpo[a]:
                            p = idom[p]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])

class Frame:
    __slots__ = ('body', 'fid', 'row', 'depth', 'chain', 'parent')

class Engine:
    def __init__(self, facts, opaque=None, maxpaths=3000, maxdepth=60):
        self.fx = facts
        self.F, self.T = facts.F, facts.T
        self.bodies = {}
        self.fids = FIDS.setdefault(facts.token, {})
        self.opaque = opaque or (lambda e, fn: None)
        self.maxpaths, self.maxdepth = maxpaths, maxdepth
        self.maxrec = 2
        self.obl = []            # obligations: (kind, span, cond, facts, chain)
        self.unmodelled = {}
        self.loops = {}
        self.calls_seen = set()
        self.fnrefs = {}
        self.steps = 0
        self.analysed = set()
        self.check_obl = False
        self.split_paths = False   # keep paths apart that differ only in what is known about values
        self.nowrap = True
        self.tables = set()
        self.poison = False     # model lock poisoning (a panic elsewhere) as a failing path
        self.jobcid = None      # fixed SerializationJob::config().compression_id
        for r in self.T.values():
            if r.get('k') == 'adt':
                for i, v in enumerate(r.get('vs') or []):
                    terms.NAMES.setdefault((r['def'], i), [f[0] for f in v['f']])
        import models
        self.models = models.MODELS
        self.prefix_models = models.PREFIX

    # ---- types
    def ty(self, i):
        return self.T.get(i) or {'k': 'other', 's': '?'}
    def tys(self, i):
        return self.ty(i)['s']
    def deref_ty(self, i):
        r = self.ty(i)
        if r['k'] in ('ref', 'ptr', 'slice', 'array'):
            return r.get('t')
        if r['k'] == 'adt' and r['def'] == 'alloc::boxed::Box':
            return r['args'][0] if r['args'] else None
        return None
    def note(self, v, ty):
        r = self.T.get(ty)
        if r and r['k'] == 'array' and v.op not in ('agg', 'seq', 'sub', 'str') and r.get('len') is not None:
            terms.ARRLEN[v] = int(r['len'])
            return v
        if r and r['k'] in ('uint', 'int', 'char') and v.op not in ('i', 'lin') and v not in UB:
            s = r['s']
            bits = {'usize': 64, 'isize': 64, 'char': 21}.get(s) or int(s[1:] or 64)
            if r['k'] == 'int':
                SIGNED.add(v)
                UB[v] = (1 << (bits - 1)) - 1
            else:
                UB[v] = (1 << bits) - 1
        return v
    def tmax(self, ty):
        r = self.T.get(ty)
        if not r or r['k'] not in ('uint', 'int'):
            return None
        bits = {'usize': 64, 'isize': 64}.get(r['s']) or int(r['s'][1:])
        return (1 << bits) - 1 if r['k'] == 'uint' else (1 << (bits - 1)) - 1
    def bits(self, ty):
        r = self.T.get(ty)
        if not r or r['k'] not in ('uint', 'int'):
            return None
        return {'usize': 64, 'isize': 64}.get(r['s']) or int(r['s'][1:])

    # ---- memory
    def rootval(self, st, root):
        v = st.m.get(root)
        if v is not None:
            return v
        if root[0] == 'S':
            return mk('*', root[1])
        if root[0] == 'G':
            return mk('locked', root[1], root[2])
        return mk('uninit', root)
    def read_path(self, v, path):
        for e in path:
            if e[0] == 'f':
                if v.op in ('ref', 'rv') :
                    continue
                v = terms._fld(v, e[1], e[3] if v.op != 'agg' and e[3] is not None else e[2])
            elif e[0] == 'ix':
                v = elem(v, e[1])
            elif e[0] == 'sub':
                v = subseq(v, e[1], e[2])
        return v
    def write_path(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == 'f':
            name = e[3] if v.op != 'agg' and e[3] is not None else e[2]
            return terms.setfld(v, e[1], name, self.write_path(terms._fld(v, e[1], name), path[1:], new))
        if e[0] == 'ix':
            return ixset(v, e[1], self.write_path(elem(v, e[1]), path[1:], new))
        if e[0] == 'sub':
            return splice(v, e[1], e[2], self.write_path(subseq(v, e[1], e[2]), path[1:], new))
        raise Undecided('write path')
    def read(self, st, root, path=()):
        return self.read_path(self.rootval(st, root), path)
    def write(self, st, root, path, new):
        if not path:
            st.m[root] = new
        else:
            st.m[root] = self.write_path(self.rootval(st, root), path, new)
    def deref(self, st, v):
        """Value behind a pointer value."""
        if v.op == 'rv':
            return v.a[0]
        if v.op == 'ref':
            return self.read(st, v.a[0], v.a[1])
        if v.op == 'agg' and v.a[0] == 'alloc::borrow::Cow':
            return self.deref(st, v.a[2][0]) if v.a[1] == 0 else v.a[2][0]
        if v.op in ('str', 'seq', 'sub'):
            return v
        return self.read(st, ('S', v))
    def store(self, st, ptr, new):
        if ptr.op == 'ref':
            self.write(st, ptr.a[0], ptr.a[1], new)
        elif ptr.op == 'rv':
            return
        else:
            self.write(st, ('S', ptr), (), new)
    def loc(self, st, ptr):
        """(root, path) a pointer refers to, or None for a snapshot."""
        if ptr.op == 'ref':
            return ptr.a[0], ptr.a[1]
        if ptr.op == 'rv':
            return None
        return ('S', ptr), ()

    def place(self, st, fr, p):
        """(root, path, type) of a MIR place; pointers on the way are followed."""
        loc = p[0]
        root, path = ('L', fr.fid, loc), ()
        ty = fr.row['locs'][loc][0]
        var = -1
        snap = None      # value when walking through a snapshot reference
        for e in p[1:]:
            if e == '*':
                v = snap if snap is not None and not path else None
                v = self.read_path(snap, path) if snap is not None else self.read(st, root, path)
                ty = self.deref_ty(ty)
                var = -1
                if v.op == 'rv':
                    snap, root, path = v.a[0], None, ()
                elif v.op == 'ref':
                    snap, root, path = None, v.a[0], v.a[1]
                elif v.op in ('str', 'seq', 'sub'):
                    snap, root, path = v, None, ()
                else:
                    snap, root, path = None, ('S', v), ()
                continue
            k = e[0]
            if k == 'f':
                r = self.T.get(ty)
                if r and r['k'] == 'adt' and r['def'] in BOXY:
                    ty = e[2]
                    if r['def'] == 'alloc::boxed::Box':
                        # Box deref: keep the box value itself as the pointer; element type is remembered
                        pass
                    continue
                name = None
                if r and r['k'] == 'adt' and r.get('vs'):
                    fs = r['vs'][max(var, 0)]['f'] if max(var, 0) < len(r['vs']) else []
                    if e[1] < len(fs):
                        name = fs[e[1]][0]
                        if name.isdigit():
                            name = None
                path = path + (('f', var, e[1], name),)
                ty = e[2]
                var = -1
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                i = self.read(st, ('L', fr.fid, e[1]))
                path = path + (('ix', i),)
                ty = self.deref_ty(ty)
            elif k == 'ci':
                cur = self.read_path(snap, path) if snap is not None else self.read(st, root, path)
                i = sub_(slen(cur), I(e[1])) if e[2] else I(e[1])
                path = path + (('ix', i),)
                ty = self.deref_ty(ty)
            elif k == 'ss':
                cur = self.read_path(snap, path) if snap is not None else self.read(st, root, path)
                n = slen(cur)
                b = sub_(n, I(e[2])) if e[3] else I(e[2])
                path = path + (('sub', I(e[1]), b),)
            else:
                raise Undecided('projection %s' % (e,))
        return snap, root, path, ty
    def rplace(self, st, fr, p):
        snap, root, path, ty = self.place(st, fr, p)
        v = self.read_path(snap, path) if snap is not None else self.read(st, root, path)
        self.note(v, ty)
        return v
    def wplace(self, st, fr, p, v):
        snap, root, path, ty = self.place(st, fr, p)
        if snap is not None:
            return
        self.note(v, ty)
        self.write(st, root, path, v)

    # ---- operands and rvalues
    def const(self, k):
        c = k['c']
        if c == 'int':
            n = int(k['v'])
            return I(n)
        if c == 'fn':
            f = k.get('fn') or k
            return self.fnitem(f)
        if c == 'zst':
            r = self.T.get(k.get('ty'))
            if r and r['k'] == 'fndef':
                return self.fnitem(r['fn'])
            if r and r['k'] == 'tuple':
                return UNIT
            if r and r['k'] == 'adt':
                return mk('agg', r['def'], 0, ())
            if r and r['k'] == 'closure':
                return mk('agg', 'closure:%s' % r['inst'], 0, ())
            return mk('agg', r['s'] if r else 'zst', 0, ())
        if c == 'slice':
            if 'str' in k and k['str'] is not None:
                return mk('str', k['str'])
            if k.get('bytes') is not None:
                b = k['bytes']
                bs = bytes.fromhex(b) if isinstance(b, str) else bytes(b)
                return mk('rv', mk('agg', 'array', 0, tuple(I(x) for x in bs)))
        if c == 'ptr' or c == 'mem':
            if k.get('bytes') is not None:
                b = k['bytes']
                bs = bytes.fromhex(b) if isinstance(b, str) else bytes(b)
                r = self.T.get(k.get('ty'))
                arr = mk('agg', 'array', 0, tuple(I(x) for x in bs))
                t = self.T.get(r.get('t')) if r and r['k'] == 'ref' else r
                if t and t['k'] == 'array' and self.tys(t['t']) == 'u8':
                    return mk('rv', arr) if r['k'] == 'ref' else arr
                if t and t['k'] == 'str':
                    return mk('str', bs.decode('utf8', 'replace'))
            if k.get('tree') is not None:
                return self.tree(k['tree'])
        if c == 'static':
            return mk('static', k.get('p') or k.get('name') or k.get('v') or '?')
        return mk('const', self.tys(k.get('ty')) if k.get('ty') is not None else '?', str(k.get('name') or ''), str(k.get('v') or k.get('bytes') or ''))
    def tree(self, x):
        if 'i' in x:
            return I(int(x['i']))
        if 'bs' in x:
            return mk('agg', 'array', 0, tuple(I(b) for b in x['bs']))
        if 'r' in x:
            return mk('rv', self.tree(x['r']))
        r = self.T.get(x['a'])
        fs = tuple(self.tree(f) for f in x['f'])
        if r and r['k'] == 'array':
            return mk('agg', 'array', 0, fs)
        if r and r['k'] == 'tuple':
            return mk('agg', 'tuple', 0, fs)
        return mk('agg', r['def'] if r else '?', x.get('v') or 0, fs)
    def fnitem(self, f):
        import json
        key = json.dumps([f.get('inst'), f.get('p'), f.get('rp'), f.get('args')])
        self.fnrefs[key] = f
        return mk('fnitem', key)
    def operand(self, st, fr, o):
        k = o['o']
        if k in ('cp', 'mv'):
            return self.rplace(st, fr, o['p'])
        if k == 'k':
            return self.const(o['k'])
        return mk('rtcheck')
    def is_num(self, ty):
        r = self.T.get(ty)
        return bool(r) and r['k'] in ('int', 'uint', 'char')
    def wideop(self, st, op, a, b, ty):
        """Shifts and masks of wide unsigned numbers by a constant are products, quotients and remainders."""
        bits = self.bits(ty) or 0
        if bits > 8 and (self.T.get(ty) or {}).get('k') == 'uint':
            if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked') and isint(b) and not isint(a) and 0 <= b.a[0] < bits:
                n = I(1 << b.a[0])
                if op.startswith('Shr'):
                    return div(a, n)
                if st.facts.leq0(sub_(a, I((1 << bits - b.a[0]) - 1)), 3):
                    return mul(a, n)
                return self.note(mk('shlw', a, b), ty)
            if op == 'BitAnd' and isint(a) != isint(b):
                x, y = (a, b.a[0]) if isint(b) else (b, a.a[0])
                if y > 0 and not y & (y + 1):
                    return rem(x, I(y + 1))
        return self.binop(op, a, b, ty)
    def binop(self, op, a, b, ty, rty=None):
        num = self.is_num(ty)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            f = {'A': add, 'S': sub_, 'M': mul}[op[0]]
            v = f(a, b)
            mx = self.tmax(ty)
            if op[0] == 'S' and not (self.T.get(ty) or {}).get('k') == 'int':
                ovf = lt(a, b)
            else:
                ovf = neg(le(v, I(mx))) if mx is not None else I(0)
            return mk('agg', 'tuple', 0, (v, ovf))
        if op in ('Add', 'AddUnchecked'):
            return add(a, b) if num else mk('op', op, a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub_(a, b) if num else mk('op', op, a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b) if num else mk('op', op, a, b)
        if op == 'Div' and num:
            return div(a, b)
        if op == 'Rem' and num:
            return rem(a, b)
        if num:
            if op == 'Lt':
                return lt(a, b)
            if op == 'Le':
                return le(a, b)
            if op == 'Gt':
                return lt(b, a)
            if op == 'Ge':
                return le(b, a)
            if op == 'Eq':
                return eqz(sub_(a, b))
            if op == 'Ne':
                return neg(eqz(sub_(a, b)))
        else:
            if op in ('Eq', 'Ne'):
                r = None
                for x, y in ((a, b), (b, a)):
                    if isint(y) and self.ty(ty)['k'] == 'bool':
                        r = x if y.a[0] else neg(x)
                        break
                if r is None:
                    r = mkeq(a, b)
                return r if op == 'Eq' else neg(r)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isint(a) and isint(b):
                x, y = a.a[0], b.a[0]
                return I({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
            if self.ty(ty)['k'] == 'bool' and op != 'BitXor':
                x = [v for v in (a, b) if isint(v)]
                y = [v for v in (a, b) if not isint(v)]
                if x:
                    if op == 'BitAnd':
                        return y[0] if x[0].a[0] else I(0)
                    return I(1) if x[0].a[0] else y[0]
                return mk({'BitAnd': 'and', 'BitOr': 'or'}[op], *sorted((a, b), key=lambda t: t.id))
            if isint(a) and a.a[0] == 0 or isint(b) and b.a[0] == 0:
                z = b if isint(a) else a
                return z if op != 'BitAnd' else I(0)
            return mk(op.lower(), *sorted((a, b), key=lambda t: t.id))
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if isint(a) and isint(b):
                bits = self.bits(ty) or 64
                return I((a.a[0] << b.a[0]) & ((1 << bits) - 1) if op.startswith('Shl') else a.a[0] >> b.a[0])
            return self.note(mk(op[:3].lower(), a, b), ty)
        if op == 'Offset':
            return mk('offset', a, b)
        return mk('op', op, a, b)
    def cast(self, st, kind, v, frm, to):
        if kind == 'IntToInt':
            fr, t = self.ty(frm), self.ty(to)
            fb, tb = self.bits(frm), self.bits(to)
            if isint(v) and tb:
                n = v.a[0] & ((1 << tb) - 1)
                return I(n)
            if fb and tb and tb < fb:
                if fr['k'] == 'uint' and t['k'] == 'uint' and st is not None and st.facts.leq0(sub_(v, I((1 << tb) - 1)), 3):
                    return v
                return mk('trunc', tb, v)
            return v
        if kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
            return mk('fcast', self.tys(to), v)
        if kind == 'PointerExposeProvenance':
            return mk('addr', v)
        if kind == 'PointerWithExposedProvenance':
            return mk('ptrof', v)
        if kind == 'Unsize':
            return v
        return v
    def rvalue(self, st, fr, r, span):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, r['a'])
        if k == 'rep':
            v = self.operand(st, fr, r['a'])
            n = r['n']
            if isinstance(n, str):
                n = int(n) if n.isdigit() else None
            if n is None:
                return mk('rep?', v)
            if n <= 64:
                return mk('agg', 'array', 0, (v,) * n)
            return seq((mk('fill', v, I(n)),))
        if k == 'ref':
            snap, root, path, ty = self.place(st, fr, r['p'])
            if snap is not None:
                return mk('rv', self.read_path(snap, path))
            if not r['mut'] and not self.addr_matters(ty):
                return self.mkrv(self.note(self.read(st, root, path), ty))
            if root[0] == 'S' and not path:
                return root[1]
            return mk('ref', root, path)
        if k == 'raw':
            snap, root, path, ty = self.place(st, fr, r['p'])
            if snap is not None:
                return mk('rv', self.read_path(snap, path))
            if root[0] == 'S' and not path:
                return root[1]
            return mk('ref', root, path)
        if k == 'cast':
            return self.cast(st, r['k'], self.operand(st, fr, r['a']), r['from'], r['to'])
        if k == 'bin':
            return self.wideop(st, r['op'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']), r['t'])
        if k == 'un':
            v = self.operand(st, fr, r['a'])
            op = r['op']
            if op == 'Not':
                if v.op in ('le0', 'eqz', 'not', 'eq', 'is', 'and', 'or') or self.ty(r.get('t'))['k'] == 'bool':
                    return neg(v)
                return mk('bitnot', v)
            if op == 'PtrMetadata':
                return self.note(slen(self.deref(st, v)), None)
            if op == 'Neg':
                return scale(v, -1)
            return mk('un', op, v)
        if k == 'discr':
            v = self.rplace(st, fr, r['p'])
            return self.discr(v, r['t'])
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r['ops'])
            kk = r['k']
            if kk == 'array':
                return mk('agg', 'array', 0, ops)
            if kk == 'tuple':
                return mk('agg', 'tuple', 0, ops)
            if kk == 'closure':
                return mk('agg', 'closure:%s' % r['inst'], 0, ops)
            if kk == 'adt':
                return mk('agg', self.ty(r['t'])['def'], r['v'], ops)
            return mk('agg', kk, 0, ops)
        if k == 'len':
            return slen(self.rplace(st, fr, r['p']))
        if k == 'tls':
            return mk('tls', str(r))
        if k == 'wrap' or k == 'box':
            return self.operand(st, fr, r['a'])
        return mk('rvalue', k, str(r)[:80])
    def mkrv(self, v):
        return v.a[0] if v.op == '*' else mk('rv', v)
    def addr_matters(self, ty):
        """Shared references to these are kept as references (their content may change through them)."""
        r = self.T.get(ty)
        return bool(r) and r['k'] == 'adt' and ('MutexGuard' in r['def'])
    def discr(self, v, ty):
        r = self.ty(ty)
        if v.op == 'agg':
            vs = r.get('vs') or []
            if v.a[1] < len(vs):
                return I(int(vs[v.a[1]]['d']))
            return I(v.a[1])
        return mk('discr', v, ty)
    def variant_of_discr(self, ty, val):
        for i, v in enumerate(self.ty(ty).get('vs') or []):
            if int(v['d']) == val:
                return i
        return val
    def nvariants(self, ty):
        return len(self.ty(ty).get('vs') or []) or 2

    # ---- running
    def fid(self, *key):
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = next(FIDN)
        return f
    def run_inst(self, inst, args, st=None, chain=(), site=('root',)):
        """Outcomes of calling the body `inst` with argument values."""
        row = self.F[inst]
        b = self.bodies.get(inst)
        if b is None:
            b = self.bodies[inst] = Body(row)
        self.analysed.add(inst)
        fr = Frame()
        fr.body, fr.row = b, row
        fr.chain = chain + (inst,)
        fr.fid = self.fid(chain, site, inst)
        fr.depth = len(chain)
        if fr.depth > self.maxdepth:
            raise Undecided('call depth')
        st = st if st is not None else St()
        for i, a in enumerate(args):
            st.m[('L', fr.fid, i + 1)] = a
            self.note(a, row['locs'][i + 1][0])
        _, rets = self.run_region(fr, [(0, st)], None, None)
        out = []
        for v, s in rets:
            for k in [k for k in s.m if k[0] == 'L' and k[1] == fr.fid]:
                del s.m[k]
            out.append(Outcome(v, s))
        return self.merge_outcomes(out)
    def merge_outcomes(self, outs):
        if len(outs) < 2:
            return outs
        d = {}
        for o in outs:
            key = (o.ret, o.st.ev, frozenset(o.st.m.items())) + ((frozenset(o.st.facts.conds()),) if self.split_paths else ())
            if key in d:
                d[key].st.facts = d[key].facts = d[key].st.facts.meet(o.st.facts)
            else:
                d[key] = o
        return list(d.values())
    def run_region(self, fr, items, header, body):
        """Runs until return, back edge to `header`, or leaving `body`. -> (backs, [(tag, state)] exits / returns)"""
        work = {}
        def push(bb, st):
            l = work.setdefault(bb, {})
            key = (st.ev, frozenset(st.m.items())) + ((frozenset(st.facts.conds()),) if self.split_paths else ())
            o = l.get(key)
            if o is not None:
                o.facts = o.facts.meet(st.facts)
            else:
                l[key] = st
                if len(l) > self.maxpaths:
                    raise Undecided('too many paths in %s' % fr.row['p'])
        backs, rets = [], []
        first = True
        for bb, st in items:
            push(bb, st)
        rpo = fr.body.rpo
        while work:
            bb = min(work, key=lambda b: rpo.get(b, 1 << 30))
            sts = list(work.pop(bb).values())
            for st in sts:
                if bb in fr.body.loops and not (bb == header and first):
                    outs = self.exec_loop(fr, bb, st)
                else:
                    outs = self.exec_block(fr, bb, st)
                for tag, x in outs:
                    if tag == 'ret':
                        rets.append(x if body is None else ('ret', x))
                    elif body is not None and tag == header:
                        backs.append(x)
                    elif body is not None and tag not in body:
                        rets.append((tag, x))
                    else:
                        push(tag, x)
            first = False
        return backs, rets
    def bool_cases(self, st, v):
        """The value of a condition used as a number, by cases."""
        out = []
        for n, c in ((1, v), (0, neg(v))):
            s = st.copy()
            if s.facts.assume(c):
                out.append((s, I(n)))
        return out
    def exec_block(self, fr, bb, st, start=0):
        blk = fr.body.bbs[bb]
        self.steps += 1
        for i in range(start, len(blk['ss'])):
            s = blk['ss'][i]
            k = s['s']
            if k == '=' and s['v']['r'] == 'cast' and s['v']['k'] == 'IntToInt' and self.ty(s['v']['from'])['k'] == 'bool':
                v = self.operand(st, fr, s['v']['a'])
                if not isint(v):
                    out = []
                    for st2, n in self.bool_cases(st, v):
                        self.wplace(st2, fr, s['p'], n)
                        out += self.exec_block(fr, bb, st2, i + 1)
                    return out
                self.wplace(st, fr, s['p'], v)
            elif k == '=':
                v = self.rvalue(st, fr, s['v'], s.get('sp'))
                self.wplace(st, fr, s['p'], v)
            elif k == 'dead':
                st.m.pop(('L', fr.fid, s['l']), None)
            elif k == 'sd':
                v = self.rplace(st, fr, s['p'])
                self.wplace(st, fr, s['p'], v)
        t = blk['t']
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'ret':
            v = st.m.get(('L', fr.fid, 0), UNIT)
            return [('ret', (v, st))]
        if k == 'assert':
            return self.do_assert(fr, t, st)
        if k == 'drop':
            return [(t['to'], s) for s in self.drop(fr, t, st)]
        if k == 'call':
            return self.do_call(fr, bb, t, st)
        if k in ('unreach', 'resume'):
            return []
        raise Undecided('terminator %s' % k)
    def switch(self, fr, t, st):
        v = self.operand(st, fr, t['a'])
        vs = [(int(x), b) for x, b in t['vs']]
        els = t['else'] if t['else'] is not None and t['else'] >= 0 else None
        if els is not None and fr.body.bbs[els]['t']['t'] == 'unreach' and not fr.body.bbs[els]['ss']:
            els = None
        if isint(v):
            for x, b in vs:
                if x == v.a[0]:
                    return [(b, st)]
            return [(els, st)] if els is not None else []
        if v.op == 'discr' and self.const_table(v.a[0]):
            out = []
            for s, x in self.split_table(st, v.a[0]):
                r = dict(t)
                s.m = self.rewrite(s.m, v.a[0], x) if x is not None else s.m
                if x is not None and x.op == 'agg':
                    d = self.discr(x, v.a[1])
                    to = next((b for y, b in vs if y == d.a[0]), els)
                else:
                    d = int(self.ty(v.a[1])['vs'][0]['d'])
                    to = next((b for y, b in vs if y == d), els)
                if to is not None:
                    out.append((to, s))
            return out
        if v.op == 'discr':
            t0, ty = v.a
            n = self.nvariants(ty)
            known = st.facts.variant(t0, n)
            vv = [(self.variant_of_discr(ty, x), b) for x, b in vs]
            if known is not None:
                for x, b in vv:
                    if x == known:
                        return [(b, st)]
                return [(els, st)] if els is not None else []
            cur = st.facts.v.get(t0)
            exc = cur if isinstance(cur, frozenset) else frozenset()
            out = []
            for x, b in vv:
                if x in exc:
                    continue
                s = st.copy()
                s.facts.v[t0] = x
                out.append((b, s))
            rest = [i for i in range(n) if i not in exc and i not in [x for x, _ in vv]]
            if els is not None and rest:
                st.facts.v[t0] = rest[0] if len(rest) == 1 else exc | {x for x, _ in vv}
                out.append((els, st))
            return out
        boolish = self.ty(t['ty'])['k'] == 'bool'
        out = []
        for x, b in vs:
            c = (v if x else neg(v)) if boolish else eqz(sub_(v, I(x)))
            s = st.copy()
            if s.facts.assume(c):
                out.append((b, s))
        if els is not None:
            ok = True
            for x, b in vs:
                c = (neg(v) if x else v) if boolish else neg(eqz(sub_(v, I(x))))
                if not st.facts.assume(c):
                    ok = False
                    break
            if ok:
                out.append((els, st))
        return out
    def table_of(self, v):
        if v.op == 'agg' and v.a[0] == 'array':
            return v.a[2]
        if v.op == 'seq' and all(p.op == 'b' for p in v.a[0]):
            return tuple(p.a[0] for p in v.a[0])
        return None
    def const_table(self, t):
        """An element of a small constant table of options, selected by a symbolic index."""
        if t.op != 'elem' or isint(t.a[1]):
            return False
        xs = self.table_of(t.a[0])
        return xs is not None and 0 < len(xs) <= 16 and all(x.op == 'agg' and x.a[0] == 'core::option::Option' for x in xs)
    def split_table(self, st, t):
        """[(state, entry)] one per filled entry, plus one (state, None-entry) for all empty ones."""
        arr, ix = self.table_of(t.a[0]), t.a[1]
        self.tables.add(t)
        out = []
        for j, x in enumerate(arr):
            if x.a[1] == 1:
                s = st.copy()
                if s.facts.assume(eqz(sub_(ix, I(j)))):
                    out.append((s, x))
        s = st.copy()
        if all(s.facts.assume(neg(eqz(sub_(ix, I(j))))) for j, x in enumerate(arr) if x.a[1] == 1) and any(x.a[1] == 0 for x in arr):
            out.append((s, mk('agg', 'core::option::Option', 0, ())))
        return out
    def rewrite(self, m, t, x):
        from terms import _subst
        memo, ks = {}, frozenset([t])
        return {k: _subst(v, {t: x}, memo, ks) for k, v in m.items()}
    def obligation(self, st, fr, kind, cond, span, val=True):
        """cond must equal val here; recorded when it is not implied, then assumed."""
        if self.check_obl:
            r = st.facts.implies(cond, 4)
            self.obl.append((kind, span, cond, val, None if r == val else st.facts.copy(), fr.chain if fr else ()))
            if r is not None and r != val:
                return False
        return st.facts.assume(cond, val)
    def do_assert(self, fr, t, st):
        c = self.operand(st, fr, t['c'])
        if self.obligation(st, fr, t['k'], c, t['sp'], bool(t['exp'])):
            return [(t['to'], st)]
        return []
    def drop(self, fr, t, st):
        v = None
        s = self.tys(t['ty'])
        if 'MutexGuard' in s:
            v = self.rplace(st, fr, t['p'])
            self.unlock(st, v)
        elif 'BufWriter' in s:
            v = self.rplace(st, fr, t['p'])
            st.emit('drop_writer', v)
        return [st]
    def unlock(self, st, v):
        for g in subterms(v):
            if g.op == 'guard':
                root = ('G', g.a[0], g.a[1])
                cur = self.rootval(st, root)
                st.emit('unlock', g.a[0], g.a[1], cur)
                st.m.pop(root, None)
    def callee(self, t, st, fr):
        return t['fn']
    def site(self, fr, bb):
        return (fr.fid, bb)
    def do_call(self, fr, bb, t, st):
        args = [self.operand(st, fr, a) for a in t['args']]
        fn = t['fn']
        if fn is None:
            f = self.operand(st, fr, t['f'])
            outs = self.call_value(st, fr, f, args, ('ind', bb), t.get('dt'))
        else:
            outs = self.call(st, fr, fn, args, t.get('at') or [], t.get('dt'), bb, t.get('sp'))
        r = []
        for s, v in outs:
            if t['to'] is None or t['to'] < 0:
                if self.check_obl:
                    self.obl.append(('panic', t.get('sp'), I(0), True, s.facts.copy(), fr.chain))
                continue
            if v.op == 'rerun':
                r.append((bb, s))
                continue
            self.wplace(s, fr, t['dest'], v)
            r.append((t['to'], s))
        return r
    def call(self, st, fr, fn, args, at, dt, bb, sp):
        r = self.call_(st, fr, fn, args, at, dt, bb, sp)
        if self.tables:
            r = [(s, self.settle(s, v)) for s, v in r]
        return r
    def settle(self, s, v):
        """Replaces selections from constant tables whose index is known on this path."""
        for t in self.tables:
            if contains(v, t):
                ix = t.a[1]
                for j, x in enumerate(self.table_of(t.a[0])):
                    if s.facts.b.get(eqz(sub_(ix, I(j)))):
                        v = subst(v, {t: x})
                        break
        return v
    def call_(self, st, fr, fn, args, at, dt, bb, sp):
        c = Call()
        c.fn, c.args, c.at, c.dt, c.bb, c.sp, c.fr = fn, args, at, dt, bb, sp, fr
        c.site = mk('site', fr.fid if fr else -1, bb if isinstance(bb, int) else str(bb))
        h = self.opaque(self, fn)
        if h is not None:
            return self.norm(st, h(self, st, c))
        if 'inst' in fn and fn['inst'] in self.F:
            inst = fn['inst']
            chain = fr.chain if fr else ()
            if chain.count(inst) >= self.maxrec or len(chain) > self.maxdepth:
                return self.norm(st, self.opaque_call(st, c, 'recursive'))
            if self.F[inst].get('clos') and fn.get('m') in ('call', 'call_mut', 'call_once') and len(args) == 2 and args[1].op == 'agg' and args[1].a[0] == 'tuple':
                args = [args[0]] + list(args[1].a[2])
            return self.inline(st, fr, inst, args, bb)
        p = fn['p']
        m = self.models.get(p) or self.models.get(fn.get('rp'))
        if m is None and fn.get('tr'):
            m = self.models.get(fn['tr'] + '::' + fn['m'])
        if m is None:
            for pre, f in self.prefix_models:
                if p.startswith(pre):
                    m = f
                    break
        if m is not None:
            return self.norm(st, m(self, st, c))
        if 'virt' in fn:
            return self.norm(st, self.opaque_call(st, c, 'dyn'))
        if not p.startswith('core::panicking::'):
            self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        return self.norm(st, self.opaque_call(st, c, 'unmodelled'))
    def inline(self, st, fr, inst, args, site):
        outs = self.run_inst(inst, args, st, fr.chain if fr else (), (fr.fid if fr else -1, site))
        return [(o.st, o.ret) for o in outs]
    def norm(self, st, r):
        if isinstance(r, Tm):
            return [(st, r)]
        return list(r)
    def opaque_call(self, st, c, kind):
        """A call whose body is not analysed: an event and a symbolic result."""
        name = c.fn['p']
        args = tuple(c.args)
        st.emit('call', kind, name, c.fn.get('self_ty'), args, c.site)
        r = mk('ret', name, args, c.site)
        self.note(r, c.dt)
        # anything reachable through a mutable reference may have changed
        for a, ty in zip(c.args, c.at):
            tr = self.T.get(ty)
            if a.op == 'ref' and (tr is None or tr['k'] != 'ref' or tr.get('mut')):
                self.write(st, a.a[0], a.a[1], mk('havoc', name, self.read(st, a.a[0], a.a[1]), c.site))
        return r
    def call_value(self, st, fr, f, args, site, dt=None):
        """Calls a closure or function value."""
        if f.op == 'rv' or f.op == 'ref':
            g = self.deref(st, f)
            if g.op in ('agg', 'fnitem', 'rv', 'ref'):
                if g.op == 'agg' and g.a[0].startswith('closure:'):
                    return self.call_closure(st, fr, g, f, args, site)
                return self.call_value(st, fr, g, args, site, dt)
        if f.op == 'agg' and isinstance(f.a[0], str) and f.a[0].startswith('closure:'):
            return self.call_closure(st, fr, f, None, args, site)
        if f.op == 'fnitem':
            fn = self.fnrefs[f.a[0]]
            ctor = self.ctor(fn)
            if ctor is not None:
                return [(st, mk('agg', ctor[0], ctor[1], tuple(args)))]
            return self.call(st, fr, fn, args, fn.get('at') or [], dt, 'v:%s' % (site,), None)
        st.emit('call', 'fnptr', '?', None, (f,) + tuple(args), mk('site', fr.fid, str(site)))
        return [(st, mk('ret', 'fnptr', (f,) + tuple(args), mk('site', fr.fid, str(site))))]
    def ctor(self, fn):
        if 'inst' in fn and fn['inst'] in self.F:
            return None
        p = fn['p']
        if p in ('core::result::Result::Ok', 'core::option::Option::None'):
            return p.rsplit('::', 1)[0], 0
        if p in ('core::result::Result::Err', 'core::option::Option::Some'):
            return p.rsplit('::', 1)[0], 1
        if fn.get('rk') == 'ctor' or 'ctor' in fn:
            return fn['ctor'] if isinstance(fn.get('ctor'), list) else None
        base, _, last = p.rpartition('::')
        for r in self.T.values():
            if r['k'] == 'adt' and r['def'] in (base, p):
                for i, v in enumerate(r.get('vs') or []):
                    if v['n'] == last:
                        return r['def'], i
        return None
    def call_closure(self, st, fr, clos, ptr, args, site):
        inst = int(clos.a[0].split(':')[1])
        if inst not in self.F:
            return [(st, mk('ret', 'closure', (clos,) + tuple(args), mk('site', fr.fid, str(site))))]
        row = self.F[inst]
        self_ty = self.ty(row['locs'][1][0])
        if self_ty['k'] == 'ref':
            env = ptr if ptr is not None else mk('rv', clos)
            if self_ty.get('mut') and env.op == 'rv':
                root = ('T', self.fid('clos', fr.fid, str(site)))
                st.m[root] = clos
                env = mk('ref', root, ())
        else:
            env = clos
        chain = fr.chain if fr else ()
        if chain.count(inst) >= self.maxrec:
            return [(st, mk('ret', 'recursive', (clos,) + tuple(args), mk('site', fr.fid, str(site))))]
        n = row['argc']
        if n == 2 and len(args) != 1:
            args = [mk('agg', 'tuple', 0, tuple(args))] if len(args) > 1 else args
        if len(args) != n - 1 and len(args) == 1 and args[0].op == 'agg' and args[0].a[0] == 'tuple':
            args = list(args[0].a[2])
        return self.inline(st, fr, inst, [env] + list(args), site)

    # ---- splitting symbolic enums
    def split(self, st, v, n=2):
        """[(state, variant, payload fields getter)] for an enum value."""
        if v.op == 'agg':
            return [(st, v.a[1])]
        if self.const_table(v):
            out = []
            for s, x in self.split_table(st, v):
                s.m = self.rewrite(s.m, v, x)
                s.facts.v[v] = x.a[1]
                out.append((s, x.a[1]))
            return out
        k = st.facts.variant(v, n)
        if k is not None:
            return [(st, k)]
        cur = st.facts.v.get(v)
        exc = cur if isinstance(cur, frozenset) else frozenset()
        out = []
        for i in range(n):
            if i in exc:
                continue
            s = st.copy()
            s.facts.v[v] = i
            out.append((s, i))
        return out
    def payload(self, v, variant, i=0):
        return terms._fld(v, variant, i)

    # ---- loops
    def exec_loop(self, fr, H, st):
        body = fr.body.loops[H]
        lid = self.fid('loop', fr.fid, H, frozenset(st.m.items()))
        def runner(s):
            return self.run_region(fr, [(H, s)], H, body)
        outs = self.unrolled(st.copy(), lid, runner, self.abs_loop, where=(fr.row['p'], H))
        return [(tag if tag != 'ret' else 'ret', x) for tag, x in outs]
    def unrolled(self, st, lid, runner, summary, where=None, **kw):
        """A loop with a small constant number of rounds and no events is run round by round; any other is summarised."""
        nob, nun, nl = len(self.obl), dict(self.unmodelled), dict(self.loops)
        outs = summary(st.copy(), lid, runner, where=where, **kw)
        info = self.loops.get(lid)
        if info is None or any(ev for _, ev in info['alts']):
            return outs
        ns = [n.a[0] for _, n in info['exits'] if n is not None and isint(n)]
        if not ns or not 1 <= max(ns) <= 16 or not any(info['phis'].values()) and not info['accs']:
            return outs
        keep = (self.obl[nob:], self.unmodelled, self.loops)
        del self.obl[nob:]
        self.unmodelled, self.loops = dict(nun), nl
        cur, done = [st], []
        for r in range(max(ns) + 1):
            backs = []
            for s in cur:
                b, x = runner(s.copy())
                backs += b
                done += x
            cur = backs
            if not cur or len(cur) + len(done) > 24:
                break
        if not cur:
            return done
        self.obl[nob:], self.unmodelled, self.loops = keep
        return outs
    def abs_loop(self, st, lid, runner, where=None, par=False):
        k = mk('k', lid)
        entry = dict(st.m)
        head = dict(st.m)
        extra = []
        final = False
        rounds = 0
        while True:
            rounds += 1
            nob, nun = len(self.obl), dict(self.unmodelled)
            s = St(dict(head), st.facts.copy(), ())
            for d in extra:
                s.facts.q[norm_ineq(d)] = True
            backs, exits = runner(s)
            backs = self.merge_backs(backs)
            if not backs:
                break
            new, changed = {}, False
            for root in head:
                if any(root not in b.m for b in backs):
                    changed = True
                    continue
                h = head[root]
                e = entry[root] if root in entry else self.rootval(St(), root)
                g = self.gen(e, h, [b.m[root] for b in backs], k, lid, (str(root[0]),) + tuple(root[1:]), rounds)
                new[root] = g
                if g is not h:
                    changed = True
            for b in backs:
                for root in b.m:
                    if root not in head and root[0] in ('S', 'G') and root not in new and not self.loop_local(root, k):
                        e = self.rootval(St(), root)
                        entry[root] = e
                        new[root] = self.gen(e, e, [bb.m.get(root, e) for bb in backs], k, lid, (root[0],) + tuple(root[1:]), rounds)
                        changed = True
            nx = self.invariants(st, head, backs, k, extra, entry)
            if nx:
                extra = extra + nx
                changed = True
            if not changed:
                break
            head = new
            if rounds > 12:
                raise Undecided('loop does not stabilise in %s' % (where,))
            del self.obl[nob:]
            self.unmodelled = nun
        # summary
        alts = []
        base = St(head, st.facts).facts
        for b in backs:
            alts.append((b.facts.delta(st.facts), b.ev))
        phis, accs = {}, {}
        for root in head:
            for t in subterms(head[root]):
                if t.op == 'phi' and t.a[0] == lid:
                    phis[t] = None
                elif t.op == 'acc' and t.a[0] == lid:
                    accs[t] = None
        self.loop_phis(lid, entry, head, backs, phis, accs)
        info = self.loops[lid] = dict(where=where, k=k, alts=alts, phis=phis, accs=accs, backs=backs, par=par, entry_facts=st.facts, exits=[])
        has_ev = any(ev for _, ev in alts)
        out = []
        for tag, x in exits:
            val = None
            if tag == 'ret' or isinstance(x, tuple):
                val, s = x
            else:
                s = x
            n = self.trip_count(st, s, backs, k, lid)
            info['exits'].append((tag, n))
            m = {}
            cnt = n if n is not None else k
            if n is not None:
                m[k] = n
            m2 = dict(m)
            pre = {}
            if len(accs) > 1 and backs:
                # what an accumulator held before iteration k, for mentions inside the items of another one
                kk = mk('k', lid, 'pre')
                for a in accs:
                    al = accs[a][1]
                    if len(al) == 1:
                        al = [((), al[0][1])]
                    if not any(p.op in ('phi', 'acc') and p.a[0] == lid for c, ps in al for q in tuple(ps) + tuple(c) for p in subterms(q)):
                        pre[a] = seq(mkrep(k, kk, tuple((tuple(subst(q, {k: kk}) for q in c), tuple(subst(q, {k: kk}) for q in ps)) for c, ps in al)))
            for a in accs:
                al = tuple((c, p) for c, p in accs[a][1])
                if pre:
                    al = tuple((tuple(subst(q, pre) for q in c), tuple(subst(q, pre) for q in p)) for c, p in al)
                r = mkrep(cnt, k, al) if backs else ()
                m2[a] = seq(r)
            if m2:
                # the accumulators occur as ('all', acc) pieces
                ks = frozenset(m2)
                memo = {}
                from terms import _subst
                s.m = {kk: _subst(v, m2, memo, ks) for kk, v in s.m.items()}
                s.facts = s.facts.subst(m2)
                s.ev = subst_ev(s.ev, m2, memo, ks)
                if val is not None:
                    val = _subst(val, m2, memo, ks)
            lev = (('loop', lid, cnt, tuple(alts), par),) if has_ev else ()
            s.ev = st.ev + lev + s.ev
            out.append((tag, (val, s) if val is not None else s))
        return out
    def loop_local(self, root, k):
        return any(isinstance(x, Tm) and contains(x, k) for x in root[1:])
    def merge_backs(self, backs):
        d = {}
        for b in backs:
            key = (b.ev, frozenset(b.m.items()))
            if key in d:
                d[key].facts = d[key].facts.meet(b.facts)
            else:
                d[key] = b
        return list(d.values())
    def gen(self, e, h, bs, k, lid, key, rnd):
        if all(b is h for b in bs):
            return h
        nxt = {k: add(k, ONE)}
        if h.op == 'phi' and h.a[0] == lid and h.a[1] == key:
            return h
        if h is not e and all(b is subst(h, nxt) for b in bs):
            return h
        # appended sequence
        hp, ep = (h.a[0] if h.op == 'seq' else None), e
        if h.op == 'acc' and h.a[0] == lid:
            hp = (mk('all', h),)
        isacc = hp and hp[-1].op == 'all' and hp[-1].a[0].op == 'acc' and hp[-1].a[0].a[:2] == (lid, key)
        if isacc:
            if all(pieces(b)[:len(hp)] == hp for b in bs):
                return h
            return mk('phi', lid, key)
        if h is e:
            # induction variable
            ds = {sub_(b, e) for b in bs}
            if len(ds) == 1:
                d = next(iter(ds))
                c, m = lparts(d)
                ce, me = lparts(e)
                if d is not ZERO and (isint(d) or (not any(t in m for t in me))) and not any(s.op in ('k',) and s is k for s in subterms(d)) and self.numlike(e, bs):
                    return add(e, mul(d, k))
            pe = pieces(e) if e.op in ('seq',) else (mk('all', e),)
            if e.op == 'seq' or all(b.op == 'seq' for b in bs):
                if all((b.op == 'seq' or b is e) and pieces(b)[:len(pe)] == pe for b in bs):
                    return seq(pe + (mk('all', mk('acc', lid, key)),))
        # same shape: recurse
        if h.op == 'agg' and e.op == 'agg' and all(b.op == 'agg' and b.a[:2] == h.a[:2] and len(b.a[2]) == len(h.a[2]) for b in bs + [e]):
            fs = tuple(self.gen(e.a[2][i], h.a[2][i], [b.a[2][i] for b in bs], k, lid, key + (i,), rnd) for i in range(len(h.a[2])))
            return mk('agg', h.a[0], h.a[1], fs)
        if h.op in ('it', 'rv') and e.op == h.op and all(b.op == h.op and len(b.a) == len(h.a) and all(isinstance(x, Tm) == isinstance(y, Tm) and (isinstance(x, Tm) or x == y) for x, y in zip(b.a, h.a)) for b in bs + [e]):
            fs = tuple(self.gen(e.a[i], h.a[i], [b.a[i] for b in bs], k, lid, key + (i,), rnd) if isinstance(h.a[i], Tm) else h.a[i] for i in range(len(h.a)))
            return mk(h.op, *fs)
        if any(b.op == 'upd' for b in bs) or h.op == 'upd':
            base = h.a[0] if h.op == 'upd' else h
            ebase = e.a[0] if e.op == 'upd' else e
            if all((b.a[0] if b.op == 'upd' else b) is base for b in bs) and ebase is base:
                keys = sorted({kk for b in bs + [h, e] if b.op == 'upd' for kk, _ in b.a[1]}, key=str)
                r = base
                for kk in keys:
                    ge = terms._fld(e, kk[0], kk[1])
                    gh = terms._fld(h, kk[0], kk[1])
                    g = self.gen(ge, gh, [terms._fld(b, kk[0], kk[1]) for b in bs], k, lid, key + kk, rnd)
                    if g is not terms._fld(base, kk[0], kk[1]):
                        r = terms.setfld(r, kk[0], kk[1], g)
                return r
        return mk('phi', lid, key)
    def numlike(self, e, bs):
        if e.op in ('i', 'lin'):
            return all(b.op != 'agg' and b.op != 'seq' for b in bs)
        return all(b.op == 'lin' and e in dict(b.a[1]) and dict(b.a[1])[e] == 1 for b in bs)
    def invariants(self, st, head, backs, k, have, entry=None):
        """k-dependent guards tested on every iteration bound the loop counter at the loop head."""
        out = []
        # updating elements in place keeps the length
        for root, h in head.items():
            if h.op == 'phi' and all(root in b.m for b in backs) and any(b.m[root].op in ('ixupd', 'ixset') for b in backs) and all(slen(b.m[root]) is slen(h) for b in backs):
                e = (entry or {}).get(root)
                if e is not None:
                    d = sub_(slen(h), slen(e))
                    out += [x for x in (norm_ineq(d), norm_ineq(scale(d, -1))) if x not in have and not isint(x)]
        cand = None
        for b in backs:
            qs = {d for d in b.facts.q if lparts(d)[1].get(k, 0) > 0 and not any(s.op in ('phi', 'acc') and s.a[0] == k.a[0] for s in subterms(d))}
            cand = qs if cand is None else cand & qs
        for d in cand or ():
            if d in have:
                continue
            c = lparts(d)[1][k]
            inv = norm_ineq(sub_(d, I(c)))       # d(k) <= 0 on the iteration  =>  d(k-1) <= 0 at the head, k >= 1
            if inv in have or inv in st.facts.q:
                continue
            if any(contains(d, x) for x in self.fresh_in(backs, st)):
                continue
            at0 = subst(inv, {k: ZERO})
            if st.facts.leq0(at0, 3):
                out.append(inv)
        return out
    def fresh_in(self, backs, st):
        return ()
    def loop_phis(self, lid, entry, head, backs, phis, accs):
        def walk(e, h, bs):
            if h.op == 'phi' and h.a[0] == lid:
                phis[h] = (e, [(b.facts, x) for b, x in bs])
                return
            hp = h.a[0] if h.op == 'seq' else ((mk('all', h),) if h.op == 'acc' else None)
            if hp and hp[-1].op == 'all' and hp[-1].a[0].op == 'acc' and hp[-1].a[0].a[0] == lid:
                accs[hp[-1].a[0]] = (e, [(b.facts.delta(Facts()), pieces(x)[len(hp):]) for b, x in bs], hp)
                return
            if not any(t.op in ('phi', 'acc') and t.a[0] == lid for t in subterms(h)):
                return
            if h.op == 'agg' and e.op == 'agg':
                for i in range(len(h.a[2])):
                    walk(e.a[2][i], h.a[2][i], [(b, x.a[2][i]) for b, x in bs if x.op == 'agg' and i < len(x.a[2])])
            elif h.op in ('it', 'rv'):
                for i in range(len(h.a)):
                    if isinstance(h.a[i], Tm) and e.op == h.op:
                        walk(e.a[i], h.a[i], [(b, x.a[i]) for b, x in bs if x.op == h.op])
            elif h.op == 'upd':
                for (var, name), v in h.a[1]:
                    walk(terms._fld(e, var, name), v, [(b, terms._fld(x, var, name)) for b, x in bs])
        for root in head:
            if any(root in b.m for b in backs):
                walk(entry.get(root, head[root]), head[root], [(b, b.m[root]) for b in backs if root in b.m])
        for a in list(accs):
            if accs[a] is None:
                accs[a] = (None, [((), (mk('unknown', a),))], ())
            else:
                e, al, hp = accs[a]
                if len(al) > 1:
                    common = set(al[0][0])
                    for c, _ in al[1:]:
                        common &= set(c)
                    al = [(tuple(x for x in c if x not in common), p) for c, p in al]
                accs[a] = (e, al, hp)
    def trip_count(self, st, s, backs, k, lid):
        if not backs:
            return ZERO
        own = lambda t: any(x is k or x.op in ('phi', 'acc') and x.a[0] == lid for x in subterms(t))
        cands = []
        for f in s.facts.q:
            m = lparts(f)[1]
            if m.get(k) == -1:
                n = add(f, k)              # n - k <= 0
                if own(n):
                    continue
                ok = all(add(ONE, scale(f, -1)) in b.facts.q or norm_ineq(add(ONE, scale(f, -1))) in b.facts.q or b.facts.leq0(add(ONE, scale(f, -1)), 1) for b in backs)
                if ok:
                    cands.append(n)
            elif m.get(k, 0) < -1:
                c = -m[k]                  # n - c*k <= 0, every iteration had n - c*k >= 1
                n = add(f, scale(k, c))
                if not own(n) and all(b.facts.leq0(add(ONE, scale(f, -1)), 1) for b in backs):
                    cands.append(cdiv(n, I(c)))
        if cands:
            n = min(cands, key=lambda t: (len(subterms(t)), t.id))
            if st.facts.leq0(scale(n, -1), 3):
                return n
            if st.facts.leq0(n, 3):
                return ZERO
            return mk('ssub', n)
        for a, v in s.facts.b.items():
            if v and a.op == 'eqz' and abs(lparts(a.a[0])[1].get(k, 0)) == 1:
                c = lparts(a.a[0])[1][k]
                n = add(k, a.a[0]) if c == -1 else sub_(k, a.a[0])
                if not own(n) and all(b.facts.b.get(a) is False for b in backs):
                    return n
        return None

    # pseudo loop over an iterator value
    def iter_loop(self, st, fr, it, site, step, par=False, carry=None):
        """step(state, item) -> [('next', st)] | [('stop', st, val)];  returns [(st, None) on normal end | (st, val)]."""
        lid = self.fid('iloop', fr.fid, str(site), it, frozenset(st.m.items()))
        root = ('I', lid)
        st.m[root] = it
        def runner(s):
            backs, exits = [], []
            for s2, item, it2 in self.next(s, fr, s.m[root], site):
                if item is None:
                    s2.m[root] = it2
                    exits.append(('end', s2))
                    continue
                s2.m[root] = it2
                if item == 'skip':
                    backs.append(s2)
                    continue
                for r in step(s2, item):
                    if r[0] == 'next':
                        backs.append(r[1])
                    else:
                        exits.append(('stop', (r[2], r[1])))
            return backs, exits
        outs = []
        for tag, x in (self.abs_loop(st, lid, runner, where=(fr.row['p'], 'iter'), par=True) if par else self.unrolled(st, lid, runner, self.abs_loop, where=(fr.row['p'], 'iter'))):
            if tag == 'end':
                x.m.pop(root, None)
                outs.append((x, None))
            else:
                x[1].m.pop(root, None)
                outs.append((x[1], x[0]))
        return outs
    def next(self, st, fr, it, site):
        import iters
        return iters.next_(self, st, fr, it, site)

def subst_ev(ev, m, memo, ks):
    from terms import _subst, _subst_t
    def g(x):
        if isinstance(x, Tm):
            return _subst(x, m, memo, ks)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    return tuple(g(e) for e in ev)

class Call:
    __slots__ = ('fn', 'args', 'at', 'dt', 'bb', 'sp', 'site', 'fr')
    @property
    def targs(self):
        return self.fn.get('args') or []
