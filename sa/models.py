"""Models of library functions (std, bincode, rayon, lz4_flex, memmap2, twox_hash)."""
from terms import *
import terms, iters
from iters import coerce, fork, it_seq
import itertools

MODELS, PREFIX = {}, []
RES, OPT, CF, COW = 'core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow', 'alloc::borrow::Cow'
def ok(v): return mk('agg', RES, 0, (v,))
def err(v): return mk('agg', RES, 1, (v,))
def some(v): return mk('agg', OPT, 1, (v,))
NONE = mk('agg', OPT, 0, ())
def tup(*x): return mk('agg', 'tuple', 0, tuple(x))
def ordv(n): return mk('agg', 'core::cmp::Ordering', n, ())

def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

def dv(e, st, v):
    return e.deref(st, v)

def kind_of(e, ty):
    r = e.T.get(ty) if ty is not None else None
    return r or {'k': 'other', 's': '?'}

def strip_ref(e, st, v, ty):
    """Follows references until a non-reference type; returns (pointer-to-it or value, type)."""
    while True:
        r = kind_of(e, ty)
        if r['k'] != 'ref':
            return v, ty
        t = kind_of(e, r['t'])
        if t['k'] in ('ref',) :
            v = e.deref(st, v)
            ty = r['t']
            continue
        if t['k'] == 'adt' and t['def'] == 'alloc::boxed::Box':
            v = e.deref(st, v)
            ty = None
            return v, t['args'][0]
        return v, ty

def value_of(e, st, v, ty):
    """The value a by-value argument stands for, with all references removed, and its type."""
    while True:
        r = kind_of(e, ty)
        if r['k'] == 'ref' or (r['k'] == 'adt' and r['def'] == 'alloc::boxed::Box'):
            v = e.deref(st, v)
            ty = r.get('t') if r['k'] == 'ref' else r['args'][0]
            continue
        return v, ty

# ---------------------------------------------------------------- formatting and strings
def fmt_opaque(e, st, c):
    return mk('fmt', c.fn['m'], tuple(c.args))
for _p in ('core::fmt::Arguments', 'core::fmt::rt::', 'core::fmt::Formatter', 'alloc::fmt::format', 'core::fmt::builders'):
    PREFIX.append((_p, fmt_opaque))
@m('core::fmt::Debug::fmt', 'core::fmt::Display::fmt')
def _(e, st, c):
    return mk('fmt', c.fn['m'], tuple(c.args))
@m('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def _(e, st, c): return c.args[0]
@m('alloc::string::ToString::to_string', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec', 'alloc::boxed::Box::<[T]>::into_vec', 'core::str::<impl str>::as_bytes', 'alloc::str::<impl str>::to_owned', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes')
def _(e, st, c):
    v = c.args[0]
    if c.fn['m'] in ('as_bytes', 'as_str'):
        return e.mkrv(dv(e, st, v)) if v.op != 'str' else v
    if c.fn['m'] == 'into_vec':
        return dv(e, st, v)
    return dv(e, st, v)

# ---------------------------------------------------------------- Try
@m('core::ops::try_trait::Try::branch')
def _(e, st, c):
    v = c.args[0]
    s = kind_of(e, c.at[0])
    d = s.get('def', '')
    isopt = d == OPT or (v.op == 'agg' and v.a[0] == OPT)
    if d == CF:
        return v
    good = 1 if isopt else 0
    out = []
    for s2, i in e.split(st, v):
        if i == good:
            out.append((s2, mk('agg', CF, 0, (e.payload(v, good),))))
        else:
            out.append((s2, mk('agg', CF, 1, (NONE if isopt else err(e.payload(v, 1)),))))
    return out
@m('core::ops::try_trait::FromResidual::from_residual')
def _(e, st, c):
    v = c.args[0]
    a = c.targs
    if v.op == 'agg' and v.a[0] == OPT:
        r = kind_of(e, a[0])
        return NONE
    er = e.payload(v, 1)
    r0, r1 = kind_of(e, a[0]), kind_of(e, a[1] if len(a) > 1 else None)
    ft = r0['args'][1] if r0.get('args') and len(r0['args']) > 1 else None
    et = r1['args'][1] if r1.get('args') and len(r1['args']) > 1 else None
    return [(s, err(x)) for s, x in convert(e, st, c, er, et, ft)]
def convert(e, st, c, v, frm, to):
    if frm == to or frm is None or to is None:
        return [(st, v)]
    if e.ty(frm)['k'] == 'bool' and e.is_num(to) and not isint(v):
        return e.bool_cases(st, v)
    b = find_from(e, frm, to)
    if b is not None:
        return e.inline(st, c.fr, b, [v], ('from', str(c.bb)))
    return [(st, mk('conv', e.tys(to), v))]
def find_from(e, frm, to):
    k = ('from', frm, to)
    cache = e.__dict__.setdefault('_from', {})
    if k not in cache:
        cache[k] = None
        for b in e.F.values():
            if b['m'] == 'from' and (b['tr'] or '').startswith('core::convert::From') and b.get('self') == to:
                if b['locs'][1][0] == frm:
                    cache[k] = b['inst']
        if cache[k] is None:
            fs, ts = e.tys(frm), e.tys(to)
            for b in e.F.values():
                if b['m'] == 'from' and (b['tr'] or '').startswith('core::convert::From') and b['argc'] == 1:
                    if e.tys(b['locs'][1][0]) == fs and e.tys(b['locs'][0][0]) == ts:
                        cache[k] = b['inst']
    return cache[k]
@m('core::convert::Into::into', 'core::convert::From::from')
def _(e, st, c):
    if c.fn['m'] == 'into':
        frm, to = (c.targs + [None, None])[:2]
    else:
        to, frm = (c.targs + [None, None])[:2]
    if frm is None:
        frm = c.at[0] if c.at else None
    if to is None:
        to = c.dt
    f, t = kind_of(e, frm), kind_of(e, to)
    if f['k'] == 'bool' and e.is_num(to) and not isint(c.args[0]):
        return e.bool_cases(st, c.args[0])
    if f['k'] in ('uint', 'int', 'bool', 'char') or frm == to:
        return c.args[0]
    if t['s'] == 'alloc::string::String':
        return dv(e, st, c.args[0]) if f['k'] == 'ref' else c.args[0]
    if t['s'].startswith('alloc::sync::Arc') or t.get('def') in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc', 'alloc::sync::Arc'):
        b = find_from(e, frm, to)
        if f['k'] == 'str' or t['s'].endswith('str>'):
            return c.args[0]
        return mk('rv', c.args[0])
    return convert(e, st, c, c.args[0], frm, to)

# ---------------------------------------------------------------- Option / Result
def is_opt(e, c, i=0):
    p = c.fn['p']
    return p.startswith('core::option')
def good_bad(c):
    return (1, 0) if c.fn['p'].startswith('core::option') else (0, 1)
def wrap(c, good, v=None):
    o = c.fn['p'].startswith('core::option')
    if o:
        return some(v) if good else NONE
    return ok(v) if good else err(v)
O, R = 'core::option::Option::<T>::', 'core::result::Result::<T, E>::'
def both(*ns):
    return [O + n for n in ns] + [R + n for n in ns]
@m(*both('map'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out += [(s2, wrap(c, True, r)) for s2, r in e.call_value(s, c.fr, c.args[1], [e.payload(v, g)], c.bb, None)]
        else:
            out.append((s, wrap(c, False, e.payload(v, 1) if g == 0 else None)))
    return out
@m(R + 'map_err')
def _(e, st, c):
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == 0:
            out.append((s, ok(e.payload(v, 0))))
        else:
            out += [(s2, err(r)) for s2, r in e.call_value(s, c.fr, c.args[1], [e.payload(v, 1)], c.bb, None)]
    return out
@m(*both('and_then'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out += e.call_value(s, c.fr, c.args[1], [e.payload(v, g)], c.bb, None)
        else:
            out.append((s, wrap(c, False, e.payload(v, 1) if g == 0 else None)))
    return out
@m(*both('or_else'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out.append((s, wrap(c, True, e.payload(v, g))))
        else:
            out += e.call_value(s, c.fr, c.args[1], [e.payload(v, 1)] if g == 0 else [], c.bb, None)
    return out
@m(*both('or'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    return [(s, wrap(c, True, e.payload(v, g)) if i == g else c.args[1]) for s, i in e.split(st, v)]
@m(*both('and'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    return [(s, c.args[1] if i == g else wrap(c, False, e.payload(v, 1) if g == 0 else None)) for s, i in e.split(st, v)]
@m(O + 'ok_or')
def _(e, st, c):
    v = c.args[0]
    return [(s, ok(e.payload(v, 1)) if i == 1 else err(c.args[1])) for s, i in e.split(st, v)]
@m(O + 'ok_or_else')
def _(e, st, c):
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == 1:
            out.append((s, ok(e.payload(v, 1))))
        else:
            out += [(s2, err(r)) for s2, r in e.call_value(s, c.fr, c.args[1], [], c.bb, None)]
    return out
@m(*both('unwrap_or'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    return [(s, e.payload(v, g) if i == g else c.args[1]) for s, i in e.split(st, v)]
@m(*both('unwrap_or_default'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        out.append((s, e.payload(v, g) if i == g else default_of(e, c.dt)))
    return out
def default_of(e, ty):
    r = kind_of(e, ty)
    if r['k'] in ('uint', 'int', 'bool', 'float'):
        return ZERO
    if r['k'] == 'adt':
        if r['def'] in ('alloc::vec::Vec', 'alloc::string::String') or 'HashMap' in r['def']:
            return EMPTY
        if r['def'] == OPT:
            return NONE
    if r['k'] == 'tuple':
        return mk('agg', 'tuple', 0, tuple(default_of(e, t) for t in r['ts']))
    return mk('default', r['s'])
@m(*both('unwrap_or_else'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out.append((s, e.payload(v, g)))
        else:
            out += e.call_value(s, c.fr, c.args[1], [e.payload(v, 1)] if g == 0 else [], c.bb, None)
    return out
@m(*both('map_or'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out += e.call_value(s, c.fr, c.args[2], [e.payload(v, g)], c.bb, None)
        else:
            out.append((s, c.args[1]))
    return out
@m(*both('map_or_else'))
def _(e, st, c):
    g, _b = good_bad(c)
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out += e.call_value(s, c.fr, c.args[2], [e.payload(v, g)], c.bb, None)
        else:
            out += e.call_value(s, c.fr, c.args[1], [e.payload(v, 1)] if g == 0 else [], str(c.bb) + 'd', None)
    return out
@m(O + 'is_some_and', O + 'is_none_or', R + 'is_ok_and', R + 'is_err_and')
def _(e, st, c):
    name = c.fn['m']
    g = {'is_some_and': 1, 'is_none_or': 1, 'is_ok_and': 0, 'is_err_and': 1}[name]
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == g:
            out += e.call_value(s, c.fr, c.args[1], [e.payload(v, g)], c.bb, None)
        else:
            out.append((s, I(1 if name == 'is_none_or' else 0)))
    return out
@m(O + 'is_none', O + 'is_some', R + 'is_ok', R + 'is_err')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    want = {'is_none': 0, 'is_some': 1, 'is_ok': 0, 'is_err': 1}[c.fn['m']]
    if v.op == 'agg':
        return I(v.a[1] == want)
    k = st.facts.variant(v, 2)
    if k is not None:
        return I(k == want)
    return mk('is', v, 1) if want == 1 else neg(mk('is', v, 1))
@m(*(both('expect', 'unwrap', 'unwrap_unchecked', 'expect_err', 'unwrap_err')))
def _(e, st, c):
    v = c.args[0]
    o = c.fn['p'].startswith('core::option')
    g = 1 if o else 0
    if c.fn['m'] in ('expect_err', 'unwrap_err'):
        g = 1
    if v.op == 'agg':
        if v.a[1] != g:
            e.obligation(st, c.fr, 'unwrap', I(0), c.sp)
            return []
        return e.payload(v, g)
    k = st.facts.variant(v, 2)
    if k is not None and k != g:
        e.obligation(st, c.fr, 'unwrap', I(0), c.sp)
        return []
    if k is None:
        if e.check_obl:
            e.obl.append(('unwrap', c.sp, mk('is', v, g), True, st.facts.copy(), c.fr.chain))
        st.facts.v[v] = g
    return e.payload(v, g)
@m(R + 'ok')
def _(e, st, c):
    v = c.args[0]
    return [(s, some(e.payload(v, 0)) if i == 0 else NONE) for s, i in e.split(st, v)]
@m(R + 'err')
def _(e, st, c):
    v = c.args[0]
    return [(s, some(e.payload(v, 1)) if i == 1 else NONE) for s, i in e.split(st, v)]
@m(O + 'as_ref', R + 'as_ref', O + 'as_deref', O + 'as_slice')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    o = c.fn['p'].startswith('core::option')
    out = []
    for s, i in e.split(st, v):
        if o:
            x = NONE
            if i == 1:
                p = e.payload(v, 1)
                x = some(e.mkrv(p) if c.fn['m'] == 'as_ref' else e.mkrv(e.deref(s, p) if p.op in ('rv', 'ref', 'ret', 'fld', '*', 'elem') else p))
            out.append((s, x))
        else:
            out.append((s, mk('agg', RES, i, (e.mkrv(e.payload(v, i)),))))
    return out
@m(O + 'as_mut', R + 'as_mut')
def _(e, st, c):
    l = e.loc(st, c.args[0])
    v = dv(e, st, c.args[0])
    o = c.fn['p'].startswith('core::option')
    out = []
    for s, i in e.split(st, v):
        if v.op != 'agg':
            e.store(s, c.args[0], mk('agg', OPT if o else RES, i, (e.payload(v, i),) if (not o or i == 1) else ()))
        if o and i == 0:
            out.append((s, NONE))
        else:
            out.append((s, mk('agg', OPT if o else RES, i, (mk('ref', l[0], l[1] + (('f', i, 0, None),)),))))
    return out
@m('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<&mut T>::cloned', 'core::option::Option::<&mut T>::copied')
def _(e, st, c):
    v = c.args[0]
    return [(s, some(e.deref(s, e.payload(v, 1))) if i == 1 else NONE) for s, i in e.split(st, v)]
@m(O + 'take')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], NONE)
    return v
@m(O + 'replace', O + 'insert')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], some(c.args[1]))
    if c.fn['m'] == 'insert':
        l = e.loc(st, c.args[0])
        return mk('ref', l[0], l[1] + (('f', 1, 0, None),))
    return v
@m(O + 'get_or_insert', O + 'get_or_insert_with')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    l = e.loc(st, c.args[0])
    r = mk('ref', l[0], l[1] + (('f', 1, 0, None),))
    out = []
    for s, i in e.split(st, v):
        if i == 1:
            out.append((s, r))
        elif c.fn['m'] == 'get_or_insert':
            e.store(s, c.args[0], some(c.args[1]))
            out.append((s, r))
        else:
            for s2, x in e.call_value(s, c.fr, c.args[1], [], c.bb, None):
                e.store(s2, c.args[0], some(x))
                out.append((s2, r))
    return out
@m(O + 'filter')
def _(e, st, c):
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == 0:
            out.append((s, NONE))
            continue
        p = e.payload(v, 1)
        for s2, r in e.call_value(s, c.fr, c.args[1], [e.mkrv(p)], c.bb, None):
            for s3, b in fork(e, s2, r):
                out.append((s3, some(p) if b else NONE))
    return out
@m('core::option::Option::<core::result::Result<T, E>>::transpose')
def _(e, st, c):
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == 0:
            out.append((s, ok(NONE)))
            continue
        r = e.payload(v, 1)
        for s2, j in e.split(s, r):
            out.append((s2, ok(some(e.payload(r, 0))) if j == 0 else err(e.payload(r, 1))))
    return out
@m('core::result::Result::<core::option::Option<T>, E>::transpose')
def _(e, st, c):
    v = c.args[0]
    out = []
    for s, i in e.split(st, v):
        if i == 1:
            out.append((s, some(err(e.payload(v, 1)))))
            continue
        r = e.payload(v, 0)
        for s2, j in e.split(s, r):
            out.append((s2, some(ok(e.payload(r, 1))) if j == 1 else NONE))
    return out
@m('core::option::Option::<core::option::Option<T>>::flatten')
def _(e, st, c):
    v = c.args[0]
    return [(s, e.payload(v, 1) if i == 1 else NONE) for s, i in e.split(st, v)]
@m(O + 'zip')
def _(e, st, c):
    a, b = c.args
    out = []
    for s, i in e.split(st, a):
        if i == 0:
            out.append((s, NONE)); continue
        for s2, j in e.split(s, b):
            out.append((s2, some(tup(e.payload(a, 1), e.payload(b, 1))) if j == 1 else NONE))
    return out
@m(O + 'unwrap_or_else_never')
def _(e, st, c): return c.args[0]
@m('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some')
def _(e, st, c):
    out = []
    for s, b in fork(e, st, c.args[0]):
        if not b:
            out.append((s, NONE))
        elif c.fn['m'] == 'then_some':
            out.append((s, some(c.args[1])))
        else:
            out += [(s2, some(r)) for s2, r in e.call_value(s, c.fr, c.args[1], [], c.bb, None)]
    return out

# ---------------------------------------------------------------- integers
def bits_of(c, e, i=0):
    import re
    mm = re.search(r'impl ([ui])(\d+|size)>', c.fn['p'])
    if mm:
        return mm.group(1), 64 if mm.group(2) == 'size' else int(mm.group(2))
    return 'u', 64
def int_model(e, st, c):
    n = c.fn['m']
    sg, bits = bits_of(c, e)
    mx = (1 << bits) - 1 if sg == 'u' else (1 << (bits - 1)) - 1
    a = c.args[0] if c.args else None
    b = c.args[1] if len(c.args) > 1 else None
    w = bits // 8
    if n in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        r = rd(n[5:7] if n[5:7] != 'ne' else 'le', w, a) if n[5:7] != 'ne' else mk('rd', 'ne', w, a, ZERO)
        return e.note(r, c.dt)
    if n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        return seq((mk(n[3:5], w, a),)) if n[3:5] != 'ne' else mk('seq', (mk('ne', w, a),))
    fs = {'add': add, 'sub': sub_, 'mul': mul}
    for pre in ('checked_', 'saturating_', 'wrapping_', 'overflowing_', 'unchecked_', 'strict_'):
        if n.startswith(pre):
            op = n[len(pre):]
            if op in fs:
                v = fs[op](a, b)
                inr = le(b, a) if op == 'sub' and sg == 'u' else le(v, I(mx))
                if pre == 'checked_':
                    return [(s, some(v) if x else NONE) for s, x in fork(e, st, inr)]
                if pre == 'overflowing_':
                    return [(s, tup(v, I(0)) if x else tup(mk('wrap', v, bits), I(1))) for s, x in fork(e, st, inr)]
                if pre == 'saturating_':
                    return [(s, v if x else (ZERO if op == 'sub' else I(mx))) for s, x in fork(e, st, inr)]
                r = st.facts.implies(inr, 2)
                return v if r else mk('wrap', v, bits)
            if op in ('div', 'rem') and pre == 'checked_':
                f = div if op == 'div' else rem
                return [(s, NONE if x else some(f(a, b))) for s, x in fork(e, st, eqz(b))]
            if op in ('shl', 'shr') and pre == 'checked_':
                return [(s, some(mk(op, a, b)) if x else NONE) for s, x in fork(e, st, lt(b, I(bits)))]
    if n == 'div_ceil':
        return cdiv(a, b)
    if n in ('min', 'max'):
        return tmin(a, b) if n == 'min' else tmax(a, b)
    if n == 'is_power_of_two':
        return mk('ispow2', a)
    if n == 'abs_diff':
        return mk('absdiff', *sorted((a, b), key=lambda t: t.id))
    return mk('intop', n, tuple(c.args))
PREFIX.append(('core::num::<impl ', int_model))
@m('core::num::nonzero::NonZero::<T>::get')
def _(e, st, c): return c.args[0]
@m('core::num::nonzero::NonZero::<T>::new')
def _(e, st, c):
    return [(s, NONE if x else some(c.args[0])) for s, x in fork(e, st, eqz(c.args[0]))]
@m('core::cmp::Ord::clamp')
def _(e, st, c): return tmin(tmax(c.args[0], c.args[1]), c.args[2])
@m('core::cmp::Ord::max', 'core::cmp::max')
def _(e, st, c): return tmax(c.args[0], c.args[1])
@m('core::cmp::Ord::min', 'core::cmp::min')
def _(e, st, c): return tmin(c.args[0], c.args[1])
def numeric(e, ty):
    return kind_of(e, ty)['k'] in ('int', 'uint', 'char')
@m('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _(e, st, c):
    a, ta = value_of(e, st, c.args[0], c.at[0])
    b, tb = value_of(e, st, c.args[1], c.at[1])
    if numeric(e, ta):
        r = eqz(sub_(a, b))
    else:
        r = seq_eq(a, b)
        if r is None:
            r = mkeq(a, b)
    return r if c.fn['m'] == 'eq' else neg(r)
def seq_eq(a, b):
    def cb(v):
        ps = pieces(v) if v.op in ('seq', 'str') or (v.op == 'agg' and v.a[0] == 'array') else None
        if ps is not None and all(p.op == 'b' and isint(p.a[0]) for p in ps):
            return tuple(p.a[0].a[0] for p in ps)
    x, y = cb(a), cb(b)
    if x is not None and y is not None:
        return I(x == y)
    if x is not None or y is not None:
        o, k = (b, x) if x is not None else (a, y)
        return mk('eqbytes', o, k)
    return None
@m('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _(e, st, c):
    a, ta = value_of(e, st, c.args[0], c.at[0])
    b, tb = value_of(e, st, c.args[1], c.at[1])
    if not numeric(e, ta):
        return mk('cmp', c.fn['m'], a, b)
    return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[c.fn['m']]
@m('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def _(e, st, c):
    a, ta = value_of(e, st, c.args[0], c.at[0])
    b, tb = value_of(e, st, c.args[1], c.at[1])
    if not numeric(e, ta):
        return mk('call', 'cmp', (a, b))
    out = []
    for s, x in fork(e, st, lt(a, b)):
        if x:
            out.append((s, ordv(0)))
        else:
            for s2, y in fork(e, s, eqz(sub_(a, b))):
                out.append((s2, ordv(1 if y else 2)))
    return [(s, some(v)) for s, v in out] if c.fn['m'] == 'partial_cmp' else out
@m('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(e, st, c):
    a = c.args[0]
    frm = c.at[0] if c.at else None
    to = c.targs[0] if c.fn['m'] == 'try_from' else (c.targs[1] if len(c.targs) > 1 else None)
    f, t = kind_of(e, frm), kind_of(e, to)
    if t['k'] in ('uint', 'int') and f['k'] in ('uint', 'int'):
        mx, fm = e.tmax(to), e.tmax(frm)
        if f['k'] == 'uint' and fm <= mx:
            return ok(a)
        cond = le(a, I(mx))
        return [(s, ok(a) if x else err(mk('err', 'try_from', c.site))) for s, x in fork(e, st, cond)]
    # slices and vectors into arrays
    tt = t
    while tt['k'] == 'ref':
        tt = kind_of(e, tt['t'])
    if tt['k'] == 'array':
        v = e.deref(st, a) if f['k'] == 'ref' else a
        n = tt['len']
        n = int(n) if n is not None else None
        if n is not None:
            cond = eqz(sub_(slen(v), I(n)))
            res = e.mkrv(v) if t['k'] == 'ref' else v
            return [(s, ok(res) if x else err(mk('err', 'try_into', c.site))) for s, x in fork(e, st, cond)]
    return mk('ret', 'try_from', tuple(c.args), c.site)
@m('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow')
def _(e, st, c): 
    if c.args[0].op == 'str':
        return c.args[0]
    v = e.deref(st, c.args[0])
    while v.op == 'rv' or v.op == 'agg' and v.a[0] == COW:
        v = e.deref(st, v) if v.op == 'agg' else v.a[0]
    return e.mkrv(v)
@m('core::default::Default::default')
def _(e, st, c): return default_of(e, c.dt)
@m('core::mem::size_of', 'core::mem::align_of')
def _(e, st, c):
    r = kind_of(e, c.targs[0])
    if r['k'] in ('uint', 'int'):
        return I({'usize': 8, 'isize': 8}.get(r['s']) or int(r['s'][1:]) // 8)
    if r['k'] == 'bool':
        return ONE
    known = {'f32': 4, 'f64': 8, 'char': 4, 'alloc::string::String': 24}.get(r['s'])
    if known and c.fn['m'] == 'size_of':
        return I(known)
    return mk('sizeof', r['s'])
@m('core::mem::size_of_val')
def _(e, st, c): return mk('sizeofval', e.deref(st, c.args[0]))
@m('core::mem::drop')
def _(e, st, c):
    e.unlock(st, c.args[0])
    return UNIT
@m('core::mem::forget', 'core::sync::atomic::fence')
def _(e, st, c):
    return UNIT
@m('core::mem::take')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], default_of(e, c.dt))
    return v
@m('core::mem::replace')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], c.args[1])
    return v
@m('core::mem::swap')
def _(e, st, c):
    a, b = dv(e, st, c.args[0]), dv(e, st, c.args[1])
    e.store(st, c.args[0], b)
    e.store(st, c.args[1], a)
    return UNIT
@m('core::any::TypeId::of')
def _(e, st, c): return mk('typeid', e.tys(c.targs[0]))
@m('core::any::type_name')
def _(e, st, c): return mk('str', e.tys(c.targs[0]))
@m('core::clone::Clone::clone', 'alloc::slice::<impl [T]>::to_owned')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    return v
@m('core::clone::Clone::clone_from')
def _(e, st, c):
    e.store(st, c.args[0], dv(e, st, c.args[1]))
    return UNIT

# ---------------------------------------------------------------- pointers to content
@m('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::borrow::Cow::<\'_, B>::as_ref', 'core::convert::AsMut::as_mut')
def _(e, st, c):
    mut = c.fn['m'] in ('deref_mut', 'as_mut_slice', 'as_mut')
    r = kind_of(e, c.at[0])
    t = kind_of(e, r.get('t'))
    v = dv(e, st, c.args[0])
    d = t.get('def', '')
    if 'MutexGuard' in t['s'][:60] or v.op == 'guard':
        if v.op == 'guard':
            return mk('ref', ('G', v.a[0], v.a[1]), ())
        return mk('ref', ('S', mk('guardof', v)), ())
    if d in ('alloc::vec::Vec', 'alloc::string::String') or 'Mmap' in d:
        return c.args[0] if mut else e.mkrv(v)
    if mut:
        if d == 'core::mem::manually_drop::ManuallyDrop':
            return c.args[0]
        return v
    if d == 'core::mem::manually_drop::ManuallyDrop':
        return e.mkrv(v)
    if v.op == 'agg' and v.a[0] == COW:
        return e.mkrv(e.deref(st, v))
    return e.mkrv(e.deref(st, v))
@m('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::boxed::box_new')
def _(e, st, c): return mk('rv', c.args[0])
@m('core::mem::manually_drop::ManuallyDrop::<T>::new')
def _(e, st, c): return c.args[0]
@m('alloc::boxed::Box::<T, A>::into_inner', 'alloc::borrow::Cow::<\'_, B>::into_owned')
def _(e, st, c): return e.deref(st, c.args[0])

# ---------------------------------------------------------------- slices and vectors
def bounds(e, r, n):
    """(lo, hi) of a range value over a sequence of length n, or None for a single index."""
    if r.op == 'agg' and isinstance(r.a[0], str) and 'range' in r.a[0]:
        k = r.a[0].rsplit('::', 1)[-1]
        f = r.a[2]
        if k == 'Range':
            return f[0], f[1]
        if k == 'RangeTo':
            return ZERO, f[0]
        if k == 'RangeFrom':
            return f[0], n
        if k == 'RangeFull':
            return ZERO, n
        if k == 'RangeInclusive':
            return f[0], add(f[1], ONE)
        if k == 'RangeToInclusive':
            return ZERO, add(f[0], ONE)
    return None
def sliceref(e, ptr, v, a, b):
    if ptr.op == 'ref':
        return mk('ref', ptr.a[0], ptr.a[1] + (('sub', a, b),))
    return e.mkrv(subseq(v, a, b))
@m('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut', 'core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def _(e, st, c):
    ptr, ix = c.args
    v = dv(e, st, ptr)
    n = slen(v)
    t0 = kind_of(e, kind_of(e, c.at[0]).get('t'))
    if 'HashMap' in t0.get('def', ''):
        return e.mkrv(mk('mapget', v, ix))
    b = bounds(e, ix, n)
    mut = c.fn['m'].endswith('mut')
    if mut and ptr.op != 'ref' and ptr.op != 'rv':
        ptr = mk('ref', ('S', ptr), ())
    if b is None:
        if not e.obligation(st, c.fr, 'bounds', lt(ix, n), c.sp):
            return []
        if mut and ptr.op == 'ref':
            return mk('ref', ptr.a[0], ptr.a[1] + (('ix', ix),))
        return e.mkrv(elem(v, ix))
    lo, hi = b
    if not e.obligation(st, c.fr, 'slice', le(lo, hi), c.sp) or not e.obligation(st, c.fr, 'slice', le(hi, n), c.sp):
        return []
    return sliceref(e, ptr if mut else mk('rv', v), v, lo, hi)
@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(e, st, c):
    ptr, ix = c.args
    v = dv(e, st, ptr)
    n = slen(v)
    mut = c.fn['m'].endswith('mut')
    if mut and ptr.op != 'ref' and ptr.op != 'rv':
        ptr = mk('ref', ('S', ptr), ())
    b = bounds(e, ix, n)
    out = []
    if b is None:
        for s, x in fork(e, st, lt(ix, n)):
            if not x:
                out.append((s, NONE))
            elif mut:
                out.append((s, some(mk('ref', ptr.a[0], ptr.a[1] + (('ix', ix),)))))
            else:
                out.append((s, some(e.mkrv(elem(v, ix)))))
        return out
    lo, hi = b
    for s, x in fork(e, st, le(lo, hi)):
        if not x:
            out.append((s, NONE))
            continue
        for s2, y in fork(e, s, le(hi, n)):
            out.append((s2, some(sliceref(e, ptr if mut else mk('rv', v), v, lo, hi)) if y else NONE))
    return out
@m('core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'core::str::<impl str>::len', 'alloc::string::String::len', 'std::collections::hash::map::HashMap::<K, V, S, A>::len')
def _(e, st, c): return slen(dv(e, st, c.args[0]))
@m('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'std::collections::hash::map::HashMap::<K, V, S, A>::is_empty')
def _(e, st, c): return eqz(slen(dv(e, st, c.args[0])))
@m('alloc::vec::Vec::<T, A>::capacity')
def _(e, st, c): return mk('cap', dv(e, st, c.args[0]))
def at(e, st, c, ix, has):
    ptr = c.args[0]
    v = dv(e, st, ptr)
    out = []
    for s, x in fork(e, st, has):
        if not x:
            out.append((s, NONE))
        elif c.fn['m'].endswith('mut') and ptr.op == 'ref':
            out.append((s, some(mk('ref', ptr.a[0], ptr.a[1] + (('ix', ix),)))))
        else:
            out.append((s, some(e.mkrv(elem(v, ix)))))
    return out
@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _(e, st, c):
    n = slen(dv(e, st, c.args[0]))
    return at(e, st, c, ZERO, lt(ZERO, n))
@m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _(e, st, c):
    n = slen(dv(e, st, c.args[0]))
    return at(e, st, c, sub_(n, ONE), lt(ZERO, n))
@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _(e, st, c):
    ptr, k = c.args
    v = dv(e, st, ptr)
    n = slen(v)
    if not e.obligation(st, c.fr, 'slice', le(k, n), c.sp):
        return []
    return tup(sliceref(e, ptr, v, ZERO, k), sliceref(e, ptr, v, k, n))
@m('core::slice::<impl [T]>::split_at_checked', 'core::slice::<impl [T]>::split_at_mut_checked')
def _(e, st, c):
    ptr, k = c.args
    v = dv(e, st, ptr)
    n = slen(v)
    return [(s, some(tup(sliceref(e, ptr, v, ZERO, k), sliceref(e, ptr, v, k, n))) if x else NONE) for s, x in fork(e, st, le(k, n))]
def chunk_model(e, st, c, ty):
    w = None
    import re
    p = c.fn['p']
    targs = [kind_of(e, t) for t in c.targs]
    for cst in c.fn.get('cargs') or []:
        try:
            w = int(cst)
        except (TypeError, ValueError):
            pass
    v = dv(e, st, c.args[0])
    n = slen(v)
    first = c.fn['m'].startswith(('first', 'split_first'))
    if w is None:
        return mk('ret', c.fn['m'], (v,), c.site)
    W = I(w)
    out = []
    for s, x in fork(e, st, le(W, n)):
        if not x:
            out.append((s, NONE)); continue
        if first:
            h, r = subseq(v, ZERO, W), subseq(v, W, n)
        else:
            h, r = subseq(v, sub_(n, W), n), subseq(v, ZERO, sub_(n, W))
        if c.fn['m'].startswith('split_'):
            out.append((s, some(tup(e.mkrv(h), e.mkrv(r)) if first else tup(e.mkrv(r), e.mkrv(h)))))
        else:
            out.append((s, some(e.mkrv(h))))
    return out
for _n in ('first_chunk', 'last_chunk', 'split_first_chunk', 'split_last_chunk'):
    MODELS['core::slice::<impl [T]>::' + _n] = lambda e, st, c: chunk_model(e, st, c, None)
@m('core::ops::range::RangeInclusive::<Idx>::new')
def _(e, st, c):
    return mk('agg', 'core::ops::range::RangeInclusive', 0, (c.args[0], c.args[1], ZERO))
@m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    out = []
    for s, x in fork(e, st, lt(ZERO, n)):
        if not x:
            out.append((s, NONE))
        elif c.fn['m'] == 'split_first':
            out.append((s, some(tup(e.mkrv(elem(v, ZERO)), e.mkrv(subseq(v, ONE, n))))))
        else:
            out.append((s, some(tup(e.mkrv(elem(v, sub_(n, ONE))), e.mkrv(subseq(v, ZERO, sub_(n, ONE)))))))
    return out
@m('core::slice::<impl [T]>::contains', 'core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def _(e, st, c):
    v, x = dv(e, st, c.args[0]), dv(e, st, c.args[1])
    if c.fn['m'] == 'starts_with':
        n = slen(x)
        if isint(n):
            out = []
            for s, b in fork(e, st, le(n, slen(v))):
                if not b:
                    out.append((s, ZERO))
                else:
                    w = subseq(v, ZERO, n)
                    r = seq_eq(w, x)
                    out.append((s, r if r is not None else mk('eq', w, x)))
            return out
    return mk('call', c.fn['m'], (v, x))
@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(e, st, c):
    d, s_ = dv(e, st, c.args[0]), dv(e, st, c.args[1])
    if not e.obligation(st, c.fr, 'copylen', eqz(sub_(slen(d), slen(s_))), c.sp):
        return []
    e.store(st, c.args[0], s_)
    return UNIT
@m('core::slice::<impl [T]>::fill')
def _(e, st, c):
    d = dv(e, st, c.args[0])
    e.store(st, c.args[0], seq((mk('fill', c.args[1], slen(d)),)))
    return UNIT
@m('core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::swap', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right', 'alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable', 'alloc::slice::<impl [T]>::sort_by_key', 'alloc::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by_key')
def _(e, st, c):
    d = dv(e, st, c.args[0])
    e.store(st, c.args[0], mk('permuted', c.fn['m'], d, tuple(c.args[1:])))
    return UNIT
@m('alloc::vec::Vec::<T>::new', 'alloc::string::String::new', 'std::collections::hash::map::HashMap::<K, V>::new', 'alloc::vec::Vec::<T, A>::new_in')
def _(e, st, c): return EMPTY
def alloc_note(e, st, c, size, fallible=False):
    a = e.__dict__.setdefault('allocs', [])
    if e.check_obl:
        ub = st.facts.implies(le(size, ZERO), 1)
        e.obl.append(('alloc' if not fallible else 'tryalloc', c.sp, size, True, st.facts.copy(), c.fr.chain))
def reserved(e, st, c, n):
    """Room for n elements has been reserved on this path (kept as a fact, not a branch condition)."""
    if c.fn['p'].startswith('alloc::vec::Vec') and c.fn.get('args'):
        st.facts.b[mk('reserved', e.tys(c.fn['args'][0]), n)] = True
@m('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity')
def _(e, st, c):
    alloc_note(e, st, c, c.args[0])
    reserved(e, st, c, c.args[0])
    return EMPTY
@m('std::collections::hash::map::HashMap::<K, V>::with_capacity')
def _(e, st, c):
    alloc_note(e, st, c, c.args[0])
    return EMPTY
@m('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'std::collections::hash::map::HashMap::<K, V, S, A>::reserve', 'alloc::string::String::reserve')
def _(e, st, c):
    alloc_note(e, st, c, c.args[1])
    reserved(e, st, c, c.args[1])
    return UNIT
@m('alloc::vec::Vec::<T, A>::try_reserve_exact', 'alloc::vec::Vec::<T, A>::try_reserve', 'std::collections::hash::map::HashMap::<K, V, S, A>::try_reserve')
def _(e, st, c):
    alloc_note(e, st, c, c.args[1], True)
    s2 = st.copy()
    er = mk('err', 'reserve', c.site)
    s2.emit('fail', 'reserve', er)
    reserved(e, st, c, c.args[1])
    return [(st, ok(UNIT)), (s2, err(er))]
@m('alloc::vec::Vec::<T, A>::shrink_to_fit')
def _(e, st, c): return UNIT
@m('alloc::vec::from_elem')
def _(e, st, c):
    alloc_note(e, st, c, c.args[1])
    return seq((mk('fill', c.args[0], c.args[1]),))
@m('alloc::vec::Vec::<T, A>::push', 'alloc::vec::Vec::<T, A>::push_within_capacity')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], seq(pieces(v) + (mk('b', c.args[1]),)))
    return UNIT
@m('alloc::vec::Vec::<T, A>::pop')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    if v.op == 'seq' and v.a[0] and v.a[0][-1].op == 'b':
        e.store(st, c.args[0], seq(v.a[0][:-1]))
        return some(v.a[0][-1].a[0])
    n = slen(v)
    out = []
    for s, x in fork(e, st, lt(ZERO, n)):
        if not x:
            out.append((s, NONE))
        else:
            e.store(s, c.args[0], subseq(v, ZERO, sub_(n, ONE)))
            out.append((s, some(elem(v, sub_(n, ONE)))))
    return out
@m('alloc::vec::Vec::<T, A>::insert')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    if not e.obligation(st, c.fr, 'bounds', le(c.args[1], n), c.sp):
        return []
    e.store(st, c.args[0], seq((mk('all', subseq(v, ZERO, c.args[1])), mk('b', c.args[2]), mk('all', subseq(v, c.args[1], n)))))
    return UNIT
@m('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    i = c.args[1]
    if not e.obligation(st, c.fr, 'bounds', lt(i, n), c.sp):
        return []
    if c.fn['m'] == 'remove':
        e.store(st, c.args[0], seq((mk('all', subseq(v, ZERO, i)), mk('all', subseq(v, add(i, ONE), n)))))
    else:
        e.store(st, c.args[0], mk('permuted', 'swap_remove', v, (i,)))
    return elem(v, i)
@m('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::string::String::push_str')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    e.store(st, c.args[0], seq(pieces(v) + (mk('all', dv(e, st, c.args[1])),)))
    return UNIT
@m('alloc::vec::Vec::<T, A>::append')
def _(e, st, c):
    v, w = dv(e, st, c.args[0]), dv(e, st, c.args[1])
    e.store(st, c.args[0], seq(pieces(v) + (mk('all', w),)))
    e.store(st, c.args[1], EMPTY)
    return UNIT
@m('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear', 'std::collections::hash::map::HashMap::<K, V, S, A>::clear')
def _(e, st, c):
    e.store(st, c.args[0], EMPTY)
    return UNIT
@m('alloc::vec::Vec::<T, A>::truncate')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    out = []
    for s, x in fork(e, st, le(c.args[1], n)):
        if x:
            e.store(s, c.args[0], subseq(v, ZERO, c.args[1]))
        out.append((s, UNIT))
    return out
@m('alloc::vec::Vec::<T, A>::resize', 'alloc::vec::Vec::<T, A>::resize_with')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    alloc_note(e, st, c, c.args[1])
    out = []
    for s, x in fork(e, st, le(n, c.args[1])):
        if not x:
            e.store(s, c.args[0], subseq(v, ZERO, c.args[1]))
            out.append((s, UNIT))
            continue
        if c.fn['m'] == 'resize':
            fs = [(s, c.args[2])]
        else:
            fs = e.call_value(s, c.fr, c.args[2], [], c.bb, None)
        for s2, x2 in fs:
            e.store(s2, c.args[0], seq(pieces(v) + (mk('fill', x2, sub_(c.args[1], n)),)))
            out.append((s2, UNIT))
    return out
@m('alloc::vec::Vec::<T, A>::drain', 'alloc::vec::Vec::<T, A>::split_off')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    n = slen(v)
    if c.fn['m'] == 'split_off':
        b = (c.args[1], n)
    else:
        b = bounds(e, c.args[1], n) or (ZERO, n)
    lo, hi = b
    if not e.obligation(st, c.fr, 'slice', le(lo, hi), c.sp) or not e.obligation(st, c.fr, 'slice', le(hi, n), c.sp):
        return []
    w = subseq(v, lo, hi)
    e.store(st, c.args[0], seq((mk('all', subseq(v, ZERO, lo)), mk('all', subseq(v, hi, n)))))
    return w if c.fn['m'] == 'split_off' else it_seq(w, 'val')
@m('alloc::vec::Vec::<T, A>::into_boxed_slice')
def _(e, st, c): return mk('rv', c.args[0])
@m('alloc::slice::<impl [T]>::concat', 'alloc::slice::<impl [V]>::concat')
def _(e, st, c): return mk('call', 'concat', (dv(e, st, c.args[0]),))

# raw buffers
@m('alloc::vec::Vec::<T, A>::as_mut_ptr', 'alloc::vec::Vec::<T, A>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'core::slice::<impl [T]>::as_ptr', 'core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr', 'core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr')
def _(e, st, c):
    a = c.args[0]
    if c.fn['m'] == 'as_ptr' and a.op == 'rv':
        return mk('ptr', a.a[0], ZERO)
    return mk('ptr', a, ZERO)
@m('core::ptr::mut_ptr::<impl *mut T>::add', 'core::ptr::const_ptr::<impl *const T>::add', 'core::ptr::mut_ptr::<impl *mut T>::offset', 'core::ptr::mut_ptr::<impl *mut T>::cast', 'core::ptr::const_ptr::<impl *const T>::cast')
def _(e, st, c):
    if c.fn['m'] == 'cast':
        return c.args[0]
    p = c.args[0]
    if p.op == 'ptr':
        return mk('ptr', p.a[0], add(p.a[1], c.args[1]))
    return mk('ptr', p, c.args[1])
@m('core::slice::raw::from_raw_parts_mut', 'core::slice::raw::from_raw_parts')
def _(e, st, c):
    st.emit('raw_slice', c.args[0], c.args[1], c.site)
    return mk('rawslice', c.args[0], c.args[1])
@m('alloc::vec::Vec::<T>::from_raw_parts')
def _(e, st, c):
    p = c.args[0]
    while p.op in ('ptr', 'ptrof', 'addr'):
        p = p.a[0]
    st.emit('vec_from_raw', tuple(c.args), c.site, e.tys(c.fn['args'][0]), e.deref(st, p) if p.op == 'ref' else p)
    return mk('rawvec', *c.args)
@m('alloc::vec::Vec::<T, A>::set_len')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    st.emit('set_len', c.args[0], v, c.args[1], c.site, e.tys(c.fn['args'][0]))
    e.store(st, c.args[0], mk('uninitvec', v, c.args[1]) if v.op != 'uninitvec' else mk('uninitvec', v.a[0], c.args[1]))
    return UNIT
@m('core::ptr::copy_nonoverlapping', 'core::ptr::copy')
def _(e, st, c):
    st.emit('rawcopy', tuple(c.args), c.site, e.tys(c.fn['args'][0]))
    return UNIT
@m('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write')
def _(e, st, c):
    st.emit('rawwrite', tuple(c.args), c.site)
    return UNIT
@m('core::mem::maybe_uninit::MaybeUninit::<T>::write')
def _(e, st, c):
    st.emit('initslot', c.args[0], c.args[1], c.site)
    e.store(st, c.args[0], c.args[1])
    return c.args[0]
@m('core::mem::maybe_uninit::MaybeUninit::<T>::uninit')
def _(e, st, c): return mk('uninitvalue')
@m('core::mem::maybe_uninit::MaybeUninit::<T>::new')
def _(e, st, c): return c.args[0]
@m('core::mem::maybe_uninit::MaybeUninit::<T>::assume_init')
def _(e, st, c):
    st.emit('assume_init', c.args[0], c.site)
    return c.args[0]

# ---------------------------------------------------------------- iterators
@m('core::iter::traits::collect::IntoIterator::into_iter', 'rayon::iter::IntoParallelIterator::into_par_iter', 'rayon::iter::IntoParallelRefIterator::par_iter', 'rayon::iter::IntoParallelRefMutIterator::par_iter_mut')
def _(e, st, c):
    v = c.args[0]
    ty = c.at[0] if c.at else None
    r = kind_of(e, ty)
    if r['k'] == 'ref' and v.op in ('rv', 'ref') and e.deref(st, v).op == 'it':
        return v
    if r['k'] == 'ref' and kind_of(e, r['t'])['k'] == 'adt':
        d = kind_of(e, r['t'])['def']
        if 'IntoIter' in d or d.startswith('core::iter') or d.endswith('::Iter'):
            return v
    return coerce(e, st, v, ty)
def itval(e, st, c, i=0):
    v = c.args[i]
    if v.op == 'it':
        return v, None
    ty = c.at[i] if i < len(c.at) else None
    r = kind_of(e, ty)
    if v.op in ('ref', 'rv') or r['k'] == 'ref':
        inner = e.deref(st, v)
        if inner.op in ('ref', 'rv') and e.deref(st, inner).op == 'it':
            return e.deref(st, inner), inner
        return coerce(e, st, inner, r.get('t')), v
    return coerce(e, st, v, ty), None
@m('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _(e, st, c):
    it, ptr = itval(e, st, c)
    out = []
    for s, x, i2 in iters.next_(e, st, c.fr, it, (c.site.a[0], str(c.site.a[1])), c.fn['m'] == 'next_back'):
        if ptr is not None:
            e.store(s, ptr, i2)
        if x == 'skip':
            # run the same block again with the advanced iterator
            if c.fr is not None and c.bb in c.fr.body.loops:
                out.append((s, RERUN))
            else:
                out += rerun(e, s, c)
            continue
        out.append((s, NONE if x is None else some(x)))
    return out
RERUN = mk('rerun')
def rerun(e, s, c):
    """A filtering iterator skipped an item outside a loop we control: approximate by an opaque later item."""
    it, ptr = itval(e, s, c)
    s2 = s.copy()
    if ptr is not None:
        e.store(s, ptr, mk('it', 'opaque', it, ONE))
        e.store(s2, ptr, mk('it', 'opaque', it, ONE))
    return [(s, some(mk('itm', it, ZERO))), (s2, NONE)]
def adaptor(kind, *names):
    def f(e, st, c):
        it, ptr = itval(e, st, c)
        if ptr is not None and ptr.op == 'ref':
            # by-reference adaptor: consume through the reference
            return mk('it', kind, mk('it', 'byref', ptr), *c.args[1:])
        return mk('it', kind, it, *c.args[1:])
    for n in names:
        MODELS[n] = f
IT = 'core::iter::traits::iterator::Iterator::'
PI = ('rayon::iter::ParallelIterator::', 'rayon::iter::IndexedParallelIterator::')
def its(n): return [IT + n] + [p + n for p in PI]
for _k, _n in (('map', 'map'), ('filter', 'filter'), ('filter_map', 'filter_map'), ('inspect', 'inspect'), ('cloned', 'cloned'), ('cloned', 'copied'), ('rev', 'rev'), ('map_while', 'map_while'), ('take_while', 'take_while')):
    adaptor(_k, *its(_n))
@m(*its('flatten'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    s = e.tys(c.at[0]) if c.at else ''
    return mk('it', 'flatten', it, 'result' if 'Result<' in s else 'option')
@m(*its('flat_map'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    s = e.tys(c.at[1]) if len(c.at) > 1 else ''
    return mk('it', 'flat_map', it, c.args[1], 'result' if 'Result<' in s else 'option')
@m(*its('enumerate'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    return mk('it', 'enum', it, ZERO)
@m(*its('zip'), 'core::iter::adapters::zip::zip')
def _(e, st, c):
    a, _p = itval(e, st, c)
    return mk('it', 'zip', a, coerce(e, st, c.args[1], c.at[1] if len(c.at) > 1 else None))
@m(*its('chain'))
def _(e, st, c):
    a, _p = itval(e, st, c)
    return mk('it', 'chain', a, coerce(e, st, c.args[1], c.at[1] if len(c.at) > 1 else None))
@m(IT + 'peekable')
def _(e, st, c):
    a, _p = itval(e, st, c)
    return mk('it', 'peek', a, mk('none'))
@m(IT + 'fuse', IT + 'by_ref', *[p + 'with_min_len' for p in PI], *[p + 'with_max_len' for p in PI])
def _(e, st, c): return c.args[0]
@m(IT + 'skip', *[p + 'skip' for p in PI])
def _(e, st, c):
    it, _p = itval(e, st, c)
    n = c.args[1]
    if it.a[0] in ('seq', 'mut'):
        out = []
        for s, x in fork(e, st, le(n, sub_(it.a[3], it.a[2]))):
            out.append((s, iters.setpos(it, lo=add(it.a[2], n) if x else it.a[3])))
        return out
    if it.a[0] == 'range':
        out = []
        for s, x in fork(e, st, le(n, sub_(it.a[2], it.a[1]))):
            out.append((s, mk('it', 'range', add(it.a[1], n) if x else it.a[2], it.a[2])))
        return out
    if it.a[0] == 'enum' and it.a[1].a[0] in ('seq', 'mut'):
        out = []
        i0 = it.a[1]
        for s, x in fork(e, st, le(n, sub_(i0.a[3], i0.a[2]))):
            out.append((s, mk('it', 'enum', iters.setpos(i0, lo=add(i0.a[2], n) if x else i0.a[3]), add(it.a[2], n))))
        return out
    return mk('it', 'skip', it, n)
@m(IT + 'take', *[p + 'take' for p in PI])
def _(e, st, c):
    it, ptr = itval(e, st, c)
    n = c.args[1]
    if ptr is None and it.a[0] in ('seq', 'mut'):
        return iters.setpos(it, hi=tmin_f(e, st, it.a[3], add(it.a[2], n)))
    if ptr is not None and ptr.op in ('ref',) or ptr is not None:
        return mk('it', 'take', mk('it', 'byref', ptr), n)
    return mk('it', 'take', it, n)
def tmin_f(e, st, a, b):
    if st.facts.leq0(sub_(a, b), 2):
        return a
    if st.facts.leq0(sub_(b, a), 2):
        return b
    return tmin(a, b)
@m(IT + 'step_by')
def _(e, st, c):
    it, _p = itval(e, st, c)
    return mk('it', 'opaque', mk('it', 'step_by', it, c.args[1]), ZERO)
@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _(e, st, c):
    ptr = c.args[0]
    v = dv(e, st, ptr)
    if c.fn['m'] == 'iter_mut' and ptr.op != 'rv':
        ref = ptr if ptr.op == 'ref' else mk('ref', ('S', ptr), ())
        return mk('it', 'mut', ref, ZERO, slen(v))
    return it_seq(v, 'ref')
@m('std::collections::hash::map::HashMap::<K, V, S, A>::iter', 'std::collections::hash::map::HashMap::<K, V, S>::iter')
def _(e, st, c): return it_seq(dv(e, st, c.args[0]), 'kvref')
for _x in ('A>', ''):
    pass
for _pre in ('std::collections::hash::map::HashMap::<K, V, S, A>::', 'std::collections::hash::map::HashMap::<K, V, S>::'):
    MODELS[_pre + 'keys'] = lambda e, st, c: it_seq(dv(e, st, c.args[0]), 'keys')
    MODELS[_pre + 'values'] = lambda e, st, c: it_seq(dv(e, st, c.args[0]), 'values')
    MODELS[_pre + 'drain'] = lambda e, st, c: it_seq(dv(e, st, c.args[0]), 'kv')
@m('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'rayon::slice::ParallelSlice::par_chunks')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    size = c.args[1]
    if not e.obligation(st, c.fr, 'chunks0', lt(ZERO, size), c.sp):
        return []
    exact = c.fn['m'] == 'chunks_exact'
    n = div(slen(v), size) if exact else cdiv(slen(v), size)
    return mk('it', 'chunks', v, size, ZERO, n, exact)
@m('core::slice::<impl [T]>::windows')
def _(e, st, c): return mk('it', 'opaque', mk('windows', dv(e, st, c.args[0]), c.args[1]), ZERO)
@m('core::iter::sources::once::once')
def _(e, st, c): return it_seq(seq((mk('b', c.args[0]),)), 'val')
@m('core::iter::sources::empty::empty')
def _(e, st, c): return it_seq(EMPTY, 'val')
@m('core::iter::sources::repeat::repeat')
def _(e, st, c): return mk('it', 'repeat', c.args[0])
@m('core::iter::sources::repeat_n::repeat_n')
def _(e, st, c): return it_seq(seq((mk('fill', c.args[0], c.args[1]),)), 'val')
@m('core::iter::adapters::peekable::Peekable::<I>::peek')
def _(e, st, c):
    it, ptr = itval(e, st, c)
    if it.a[0] != 'peek':
        return mk('ret', 'peek', (it,), c.site)
    if it.a[2].op != 'none':
        v = it.a[2]
        return [(s, some(e.mkrv(e.payload(v, 1))) if i == 1 else NONE) for s, i in e.split(st, v)]
    out = []
    for s, x, i2 in iters.next_(e, st, c.fr, it.a[1], str(c.site)):
        e.store(s, ptr, mk('it', 'peek', i2, NONE if x is None else some(x)))
        out.append((s, NONE if x is None else some(e.mkrv(x))))
    return out
@m(IT + 'size_hint')
def _(e, st, c):
    it, _p = itval(e, st, c)
    n = iters.length(it)
    if n is None:
        n = mk('itlen', it)
    return tup(n, some(n))
@m('core::iter::traits::exact_size::ExactSizeIterator::len')
def _(e, st, c):
    it, _p = itval(e, st, c)
    n = iters.length(it)
    return n if n is not None else mk('itlen', it)
def with_next(e, st, fr, it, site, back=False):
    return iters.next_(e, st, fr, it, site, back)
def par_of(c):
    return c.fn['p'].startswith('rayon')
@m(*its('collect'), 'core::iter::traits::collect::FromIterator::from_iter')
def _(e, st, c):
    it, _p = itval(e, st, c)
    r = kind_of(e, c.dt)
    wrapk = None
    inner = r
    if r['k'] == 'adt' and r['def'] in (RES, OPT):
        wrapk = r['def']
        inner = kind_of(e, r['args'][0])
    acc = ('A', e.fid('acc', c.fr.fid, str(c.bb)))
    st.m[acc] = EMPTY
    def step(s, x):
        if wrapk is None:
            s.m[acc] = seq(pieces(s.m[acc]) + iters.pushed(x))
            return [('next', s)]
        g = 0 if wrapk == RES else 1
        out = []
        for s2, i in e.split(s, x):
            if i == g:
                s2.m[acc] = seq(pieces(s2.m[acc]) + (mk('b', e.payload(x, g)),))
                out.append(('next', s2))
            else:
                out.append(('stop', s2, err(e.payload(x, 1)) if g == 0 else NONE))
        return out
    out = []
    for s, v in e.iter_loop(st, c.fr, it, ('c', str(c.bb)), step, par_of(c)):
        col = s.m.pop(acc)
        if v is None:
            if wrapk is None:
                v = col
            else:
                v = ok(col) if wrapk == RES else some(col)
        out.append((s, v))
    return out
@m('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::extend')
def _(e, st, c):
    ptr = c.args[0]
    it = coerce(e, st, c.args[1], c.at[1] if len(c.at) > 1 else None)
    byref = kind_of(e, c.at[1])['k'] == 'ref' if len(c.at) > 1 else False
    tgt = ('A', e.fid('ext', c.fr.fid, str(c.bb)))
    s0 = e.tys(c.targs[1]) if len(c.targs) > 1 else ''
    if it.a[0] == 'seq' and (it.a[4] == 'val' or it.a[4] == 'ref' and s0.startswith('&')):
        old = dv(e, st, ptr)                              # the elements one after the other
        e.store(st, ptr, seq(pieces(old) + pieces(subseq(it.a[1], it.a[2], it.a[3]))))
        return UNIT
    st.m[tgt] = dv(e, st, ptr)
    def step(s, x):
        if s0.startswith('&') and x.op == 'rv':
            x = x.a[0]
        s.m[tgt] = seq(pieces(s.m[tgt]) + iters.pushed(x))
        return [('next', s)]
    out = []
    for s, v in e.iter_loop(st, c.fr, it, ('x', str(c.bb)), step):
        e.store(s, ptr, s.m.pop(tgt))
        out.append((s, UNIT))
    return out
@m(*its('for_each'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    def step(s, x):
        return [('next', s2) for s2, _r in e.call_value(s, c.fr, c.args[1], [x], ('fe', str(c.bb)), None)]
    return [(s, UNIT) for s, v in e.iter_loop(st, c.fr, it, ('f', str(c.bb)), step, par_of(c))]
@m(*its('try_for_each'))
def _(e, st, c):
    it, ptr = itval(e, st, c)
    def step(s, x):
        out = []
        for s2, r in e.call_value(s, c.fr, c.args[1], [x], ('fe', str(c.bb)), None):
            for s3, i in e.split(s2, r):
                out.append(('next', s3) if i == 0 else ('stop', s3, err(e.payload(r, 1))))
        return out
    return [(s, ok(UNIT) if v is None else v) for s, v in e.iter_loop(st, c.fr, it, ('f', str(c.bb)), step, par_of(c))]
@m(IT + 'fold', IT + 'try_fold')
def _(e, st, c):
    it, _p = itval(e, st, c)
    acc = ('A', e.fid('fold', c.fr.fid, str(c.bb)))
    st.m[acc] = c.args[1]
    tr = c.fn['m'] == 'try_fold'
    isres = kind_of(e, c.dt).get('def') == RES
    def step(s, x):
        out = []
        for s2, r in e.call_value(s, c.fr, c.args[2], [s.m[acc], x], ('fo', str(c.bb)), None):
            if not tr:
                s2.m[acc] = r
                out.append(('next', s2))
                continue
            g = 0 if isres else 1
            for s3, i in e.split(s2, r):
                if i == g:
                    s3.m[acc] = e.payload(r, g)
                    out.append(('next', s3))
                else:
                    out.append(('stop', s3, err(e.payload(r, 1)) if isres else NONE))
        return out
    out = []
    for s, v in e.iter_loop(st, c.fr, it, ('fo', str(c.bb)), step):
        a = s.m.pop(acc)
        if v is None:
            v = a if not tr else (ok(a) if isres else some(a))
        out.append((s, v))
    return out
@m(*its('sum'), *its('count'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    if c.fn['m'] == 'count' and it.a[0] != 'filter':
        n = iters.length(it)
        if n is not None and it.a[0] in ('seq', 'mut', 'range', 'chunks'):
            return n
    acc = ('A', e.fid('sum', c.fr.fid, str(c.bb)))
    st.m[acc] = ZERO
    def step(s, x):
        if x.op in ('rv', 'ref') and c.fn['m'] == 'sum':
            x = e.deref(s, x)
        nv = add(s.m[acc], x if c.fn['m'] == 'sum' else ONE)
        mx = e.tmax(c.dt)
        if c.fn['m'] == 'sum' and mx is not None:
            if not e.obligation(s, c.fr, 'overflow:sum', le(nv, I(mx)), c.sp):
                return []
        s.m[acc] = nv
        return [('next', s)]
    return [(s, s.m.pop(acc)) for s, v in e.iter_loop(st, c.fr, it, ('s', str(c.bb)), step)]
@m(*its('any'), *its('all'))
def _(e, st, c):
    it, _p = itval(e, st, c)
    anyk = c.fn['m'] == 'any'
    def step(s, x):
        out = []
        for s2, r in e.call_value(s, c.fr, c.args[1], [x], ('an', str(c.bb)), None):
            for s3, b in fork(e, s2, r):
                out.append(('stop', s3, I(anyk)) if b == anyk else ('next', s3))
        return out
    return [(s, I(not anyk) if v is None else v) for s, v in e.iter_loop(st, c.fr, it, ('a', str(c.bb)), step)]
@m(IT + 'find', IT + 'position', IT + 'find_map', IT + 'rposition')
def _(e, st, c):
    it, _p = itval(e, st, c)
    n = c.fn['m']
    pos = ('A', e.fid('pos', c.fr.fid, str(c.bb)))
    st.m[pos] = ZERO
    def step(s, x):
        out = []
        arg = e.mkrv(x) if n == 'find' else x
        for s2, r in e.call_value(s, c.fr, c.args[1], [arg], ('fi', str(c.bb)), None):
            if n == 'find_map':
                for s3, i in e.split(s2, r):
                    out.append(('stop', s3, some(e.payload(r, 1))) if i == 1 else ('next', s3))
                continue
            for s3, b in fork(e, s2, r):
                if b:
                    out.append(('stop', s3, some(x if n == 'find' else s3.m[pos])))
                else:
                    s3.m[pos] = add(s3.m[pos], ONE)
                    out.append(('next', s3))
        return out
    out = []
    for s, v in e.iter_loop(st, c.fr, it, ('fi', str(c.bb)), step):
        s.m.pop(pos, None)
        out.append((s, NONE if v is None else v))
    return out
@m(IT + 'nth', IT + 'last', IT + 'min', IT + 'max')
def _(e, st, c):
    it, ptr = itval(e, st, c)
    n = c.fn['m']
    if n == 'nth' and it.a[0] in ('seq', 'mut'):
        i = add(it.a[2], c.args[1])
        out = []
        for s, b in fork(e, st, lt(i, it.a[3])):
            if b:
                if ptr is not None:
                    e.store(s, ptr, iters.setpos(it, lo=add(i, ONE)))
                out.append((s, some(iters.getitem(e, s, it, i))))
            else:
                if ptr is not None:
                    e.store(s, ptr, iters.setpos(it, lo=it.a[3]))
                out.append((s, NONE))
        return out
    if n == 'last' and it.a[0] in ('seq', 'mut'):
        return [(s, some(iters.getitem(e, s, it, sub_(it.a[3], ONE))) if b else NONE) for s, b in fork(e, st, lt(it.a[2], it.a[3]))]
    return mk('ret', n, (it,) + tuple(c.args[1:]), c.site)

# ---------------------------------------------------------------- hash maps and hashing
for _pre in ('std::collections::hash::map::HashMap::<K, V, S, A>::', 'std::collections::hash::map::HashMap::<K, V, S>::'):
    def _ins(e, st, c):
        v = dv(e, st, c.args[0])
        e.store(st, c.args[0], seq(pieces(v) + (mk('b', tup(c.args[1], c.args[2])),)))
        return mk('ret', 'map_insert', (c.args[1],), c.site)
    def _get(e, st, c):
        return mk('mapget', c.fn['m'], dv(e, st, c.args[0]), dv(e, st, c.args[1]))
    MODELS[_pre + 'insert'] = _ins
    for _n in ('get', 'contains_key', 'get_key_value', 'get_mut'):
        MODELS[_pre + _n] = _get
@m('std::collections::hash::map::HashMap::<K, V, S, A>::remove')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    k = dv(e, st, c.args[1])
    e.store(st, c.args[0], mk('mapwithout', v, k))
    return mk('mapget', 'remove', v, k)
@m('core::hash::Hash::hash')
def _(e, st, c):
    v, ty = value_of(e, st, c.args[0], c.at[0])
    hp, hty = strip_ref(e, st, c.args[1], c.at[1])
    h = e.deref(st, hp)
    if h.op != 'hasher':
        h = mk('hasher', h, ())
    e.store(st, hp, mk('hasher', h.a[0], h.a[1] + (v,)))
    return UNIT
@m('core::hash::Hasher::finish')
def _(e, st, c):
    h = dv(e, st, c.args[0])
    if h.op == 'hasher':
        return mk('hash', h.a[0], h.a[1])
    return mk('hash', h, ())
@m('twox_hash::xxhash64::Hasher::with_seed')
def _(e, st, c): return mk('hasher', mk('xx64', c.args[0]), ())

# ---------------------------------------------------------------- bincode
def failing(e, st, c, what, good, note=None):
    """Ok(good) and Err(fresh error) outcomes; the failure is an event."""
    s2 = st.copy()
    er = mk('err', what, c.site)
    s2.emit('fail', what, er)
    return [(st, ok(good)), (s2, err(er))]
def cfgname(e, c):
    for t in c.targs:
        s = e.tys(t)
        if 'config' in s:
            return s
    return '?'
@m('bincode::config::standard')
def _(e, st, c): return mk('bincfg')
def cfgterm(e, c, i):
    return e.tys(c.at[i]) if i < len(c.at) else '?'
@m('bincode::features::serde::ser::encode_into_std_write')
def _(e, st, c):
    v, ty = value_of(e, st, c.args[0], c.at[0])
    p = mk('enc', e.tys(ty), v, cfgterm(e, c, 2))
    return write_to(e, st, c, c.args[1], c.at[1], mk('seq', (p,)), ok_len=True, what='encode')
@m('bincode::features::serde::ser::encode_to_vec')
def _(e, st, c):
    v, ty = value_of(e, st, c.args[0], c.at[0])
    return failing(e, st, c, 'encode', mk('seq', (mk('enc', e.tys(ty), v, cfgterm(e, c, 1)),)))
@m('bincode::features::serde::ser::encode_into_slice')
def _(e, st, c): return mk('ret', 'encode_into_slice', tuple(c.args), c.site)
def read_source(e, st, c, i):
    """(content, position, setter) of a std::io::Read argument."""
    p, ty = strip_ref(e, st, c.args[i], c.at[i])
    r = kind_of(e, ty)
    t = kind_of(e, r.get('t')) if r['k'] == 'ref' else r
    if 'Cursor' in t['s'][:40] or 'Cursor' in t.get('def', ''):
        cur = e.deref(st, p)
        inner, pos = terms._fld(cur, -1, 0), cursor_pos(e, st, cur)
        content = e.deref(st, inner)
        def setter(s, np):
            e.store(s, p, mk('agg', 'Cursor', 0, (inner, np)))
        return content, pos, setter
    # &[u8] as a reader
    pp = c.args[i]
    v = e.deref(st, pp)
    content = e.deref(st, v)
    if content.op == 'sub':
        base, lo, hi = content.a
    else:
        base, lo, hi = content, ZERO, slen(content)
    def setter(s, np):
        e.store(s, pp, e.mkrv(subseq(base, np, hi)))
    return base, lo, setter
@m('bincode::features::serde::de_owned::decode_from_std_read', 'bincode::features::serde::de_owned::decode_from_reader')
def _(e, st, c):
    ty = c.targs[0]
    content, pos, setter = read_source(e, st, c, 0)
    tn = e.tys(ty)
    cfg = cfgterm(e, c, 1)
    d = e.note(mk('dec', tn, content, pos, cfg), ty)
    n = mk('declen', tn, content, pos, cfg)
    s2 = st.copy()
    st.emit('decode', tn, content, pos, cfg)
    setter(st, add(pos, n))
    st.facts.q[norm_ineq_(sub_(add(pos, n), slen(content)))] = True
    er = mk('err', 'decode', c.site)
    s2.emit('decode', tn, content, pos, cfg)
    s2.emit('fail', 'decode', er)
    setter(s2, mk('havocpos', c.site))
    return [(st, ok(d)), (s2, err(er))]
from domain import norm_ineq as norm_ineq_
@m('bincode::features::serde::de_owned::decode_from_slice', 'bincode::features::serde::de_borrowed::borrow_decode_from_slice')
def _(e, st, c):
    ty = c.targs[0]
    content = e.deref(st, c.args[0])
    base, pos = (content.a[0], content.a[1]) if content.op == 'sub' else (content, ZERO)
    tn, cfg = e.tys(ty), cfgterm(e, c, 1)
    d = e.note(mk('dec', tn, base, pos, cfg), ty)
    n = mk('declen', tn, base, pos, cfg)
    s2 = st.copy()
    st.emit('decode', tn, base, pos, cfg)
    st.facts.q[norm_ineq_(sub_(n, slen(content)))] = True
    er = mk('err', 'decode', c.site)
    s2.emit('decode', tn, base, pos, cfg)
    s2.emit('fail', 'decode', er)
    return [(st, ok(tup(d, n))), (s2, err(er))]

# ---------------------------------------------------------------- cursors and io
@m('core::io::cursor::Cursor::<T>::new')
def _(e, st, c):
    # a cursor over an empty growing vector writes at its end
    v = c.args[0]
    if isvec(e, c.at[0]):
        w = e.deref(st, v) if kind_of(e, c.at[0])['k'] == 'ref' else v
        if slen(w) is ZERO:
            return mk('agg', 'Cursor', 0, (v, ATEND))
    return mk('agg', 'Cursor', 0, (v, ZERO))
ATEND = mk('atend')
def isvec(e, ty):
    t = kind_of(e, ty)
    if t['k'] == 'ref':
        t = kind_of(e, t['t'])
    return t['s'].startswith('alloc::vec::Vec<u8')
def cursor_content(e, st, cur):
    inner = terms._fld(cur, -1, 0)
    return e.deref(st, inner) if inner.op in ('ref', 'rv') else inner
def cursor_pos(e, st, cur):
    pos = terms._fld(cur, -1, 1)
    return slen(cursor_content(e, st, cur)) if pos is ATEND else pos
@m('core::io::cursor::Cursor::<T>::position')
def _(e, st, c):
    p, _t = strip_ref(e, st, c.args[0], c.at[0])
    return e.note(cursor_pos(e, st, e.deref(st, p)), c.dt)
@m('core::io::cursor::Cursor::<T>::set_position')
def _(e, st, c):
    p, _t = strip_ref(e, st, c.args[0], c.at[0])
    cur = e.deref(st, p)
    np = c.args[1]
    if terms._fld(cur, -1, 1) is ATEND and np is cursor_pos(e, st, cur):
        np = ATEND
    e.store(st, p, mk('agg', 'Cursor', 0, (terms._fld(cur, -1, 0), np)))
    return UNIT
@m('core::io::cursor::Cursor::<T>::get_ref')
def _(e, st, c):
    p, _t = strip_ref(e, st, c.args[0], c.at[0])
    return e.mkrv(terms._fld(e.deref(st, p), -1, 0))
@m('core::io::cursor::Cursor::<T>::into_inner')
def _(e, st, c): return terms._fld(c.args[0], -1, 0)
@m('core::io::read::Read::read_exact', 'std::io::Read::read_exact')
def _(e, st, c):
    content, pos, setter = read_source(e, st, c, 0)
    buf = e.deref(st, c.args[1])
    n = slen(buf)
    end = add(pos, n)
    out = []
    for s, x in fork(e, st, le(end, slen(content))):
        if x:
            e.store(s, c.args[1], subseq(content, pos, end))
            setter(s, end)
            out.append((s, ok(UNIT)))
        else:
            er = mk('err', 'read_exact', c.site)
            s.emit('fail', 'read_exact', er)
            out.append((s, err(er)))
    return out
@m('alloc::io::buffered::bufwriter::BufWriter::<W>::new', 'std::io::BufWriter::<W>::new')
def _(e, st, c): return mk('agg', 'BufWriter', 0, (c.args[0],))
@m('alloc::io::buffered::bufwriter::BufWriter::<W>::with_capacity')
def _(e, st, c): return mk('agg', 'BufWriter', 0, (c.args[1],))
@m('alloc::io::buffered::bufwriter::BufWriter::<W>::get_ref')
def _(e, st, c): return e.mkrv(terms._fld(dv(e, st, c.args[0]), -1, 0))
@m('alloc::io::buffered::bufwriter::BufWriter::<W>::get_mut')
def _(e, st, c):
    l = e.loc(st, c.args[0])
    return mk('ref', l[0], l[1] + (('f', -1, 0, None),)) if l else mk('ret', 'get_mut', tuple(c.args), c.site)
@m('alloc::io::buffered::bufwriter::BufWriter::<W>::into_inner')
def _(e, st, c):
    st.emit('sink', 'flush', c.args[0], UNIT, c.site)
    return failing(e, st, c, 'io', terms._fld(c.args[0], -1, 0))
def sink_target(e, st, ptr, ty):
    """Resolves a writer: ('vec', ptr) for a byte vector, ('sink', term, buffered) otherwise."""
    t = kind_of(e, ty)
    while t['k'] == 'ref':
        inner = kind_of(e, t['t'])
        if inner['k'] == 'ref':
            ptr = e.deref(st, ptr)
            t = inner
            continue
        t = inner
        break
    s = t['s']
    if s.startswith('alloc::vec::Vec<u8'):
        return 'vec', ptr
    if 'Cursor' in t.get('def', ''):
        cur = e.deref(st, ptr)
        if cur.op == 'agg' and cur.a[0] == 'Cursor' and cur.a[2][1] is ATEND:
            if cur.a[2][0].op == 'ref':
                return 'vec', cur.a[2][0]
            return 'cursor', ptr
    if 'BufWriter' in t.get('def', ''):
        w = e.deref(st, ptr)
        inner = terms._fld(w, -1, 0)
        it = kind_of(e, (t.get('args') or [None])[0])
        if it['k'] == 'ref':
            if kind_of(e, it['t'])['s'].startswith('alloc::vec::Vec<u8') and w.op == 'agg':
                return 'vec', inner
        return 'sink', w
    return 'sink', e.deref(st, ptr)
def write_to(e, st, c, ptr, ty, content, ok_len=False, what='io'):
    k, tgt = sink_target(e, st, ptr, ty)
    good = slen(content) if ok_len else UNIT
    if k == 'cursor':
        def put(s, x):
            cur = e.deref(s, tgt)
            e.store(s, tgt, mk('agg', 'Cursor', 0, (seq(pieces(cur.a[2][0]) + (mk('all', x),)), ATEND)))
        if what != 'io':
            s2 = st.copy()
            er = mk('err', what, c.site)
            s2.emit('fail', what, er)
            put(s2, mk('partial', c.site))
        put(st, content)
        return ok(good) if what == 'io' else [(st, ok(good)), (s2, err(er))]
    if k == 'vec':
        v = e.deref(st, tgt)
        if what == 'io':
            e.store(st, tgt, seq(pieces(v) + (mk('all', content),)))
            return ok(good)
        s2 = st.copy()
        e.store(st, tgt, seq(pieces(v) + (mk('all', content),)))
        er = mk('err', what, c.site)
        s2.emit('fail', what, er)
        e.store(s2, tgt, seq(pieces(v) + (mk('all', mk('partial', c.site)),)))
        return [(st, ok(good)), (s2, err(er))]
    st.emit('sink', 'write', tgt, content, c.site)
    return failing(e, st, c, what, good)
@m('core::io::write::Write::write_all', 'std::io::Write::write_all')
def _(e, st, c): return write_to(e, st, c, c.args[0], c.at[0], e.deref(st, c.args[1]))
@m('core::io::write::Write::write', 'std::io::Write::write')
def _(e, st, c):
    k, tgt = sink_target(e, st, c.args[0], c.at[0])
    content = e.deref(st, c.args[1])
    if k in ('vec', 'cursor'):
        return write_to(e, st, c, c.args[0], c.at[0], content, True)
    st.emit('sink', 'partial_write', tgt, content, c.site)
    return failing(e, st, c, 'io', mk('ret', 'written', (content,), c.site))
@m('core::io::write::Write::flush', 'std::io::Write::flush')
def _(e, st, c):
    k, tgt = sink_target(e, st, c.args[0], c.at[0])
    if k in ('vec', 'cursor'):
        return ok(UNIT)
    st.emit('sink', 'flush', tgt, UNIT, c.site)
    return failing(e, st, c, 'io', UNIT)
@m('core::io::write::Write::by_ref')
def _(e, st, c): return c.args[0]
def io_call(what):
    def f(e, st, c):
        st.emit('io', what, tuple(c.args), c.site)
        return failing(e, st, c, 'io', e.note(mk('iores', what, tuple(c.args)), None))
    return f
for _n, _w in (('std::fs::File::create', 'create'), ('std::fs::File::open', 'open'), ('std::fs::File::metadata', 'metadata'), ('memmap2::Mmap::map', 'mmap'), ('std::fs::File::sync_all', 'sync'), ('std::fs::read', 'read'), ('std::fs::write', 'fswrite'), ('std::fs::OpenOptions::open', 'open'), ('std::fs::File::set_len', 'set_len'), ('std::fs::remove_file', 'remove'), ('std::fs::rename', 'rename')):
    MODELS[_n] = io_call(_w)
@m('std::fs::Metadata::len')
def _(e, st, c):
    v = dv(e, st, c.args[0])
    if v.op == 'iores' and v.a[0] == 'metadata':         # assumed: a file keeps its length while it is being opened
        return e.note(slen(mk('iores', 'mmap', v.a[1])), c.dt)
    return e.note(mk('filelen', v), c.dt)
@m('alloc::io::read::Read::take', 'core::io::read::Read::take', 'std::io::Read::take')
def _(e, st, c):
    return mk('iotake', c.args[0], c.args[1])
@m('alloc::io::read::Read::read_to_end', 'core::io::read::Read::read_to_end', 'std::io::Read::read_to_end')
def _(e, st, c):
    src = dv(e, st, c.args[0])
    limit = None
    while src.op == 'iotake':
        limit = src.a[1] if limit is None else tmin(limit, src.a[1])
        src = src.a[0]
    st.emit('io', 'read_to_end', (src,), c.site)
    v = dv(e, st, c.args[1])
    s2 = st.copy()
    content = e.note(mk('iores', 'read', (src,)), None)
    if limit is not None:
        content = subseq(content, ZERO, tmin(limit, slen(content)))
    e.store(st, c.args[1], seq(pieces(v) + (mk('all', content),)))
    er = mk('err', 'io', c.site)
    s2.emit('fail', 'io', er)
    return [(st, ok(slen(content))), (s2, err(er))]

# ---------------------------------------------------------------- locks, atomics, threads
@m('std::sync::poison::mutex::Mutex::<T>::new')
def _(e, st, c): return mk('agg', 'mutex', 0, (c.site, c.args[0]))
@m('std::sync::poison::mutex::Mutex::<T>::lock')
def _(e, st, c):
    mtx = e.deref(st, c.args[0])
    g = mk('guard', mtx, c.site)
    s2 = st.copy() if e.poison else None
    st.emit('lock', mtx, c.site)
    if s2 is None:
        return ok(g)
    s2.emit('lock', mtx, c.site)
    s2.emit('fail', 'poison', mk('poisoned', g))
    return [(st, ok(g)), (s2, err(mk('agg', 'poison', 0, (g,))))]
@m('std::sync::poison::mutex::Mutex::<T>::try_lock')
def _(e, st, c):
    mtx = e.deref(st, c.args[0])
    g = mk('guard', mtx, c.site)
    s2 = st.copy()
    st.emit('lock', mtx, c.site)
    return [(st, ok(g)), (s2, err(mk('err', 'try_lock', c.site)))]
@m('std::sync::poison::mutex::Mutex::<T>::get_mut', 'std::sync::poison::mutex::Mutex::<T>::into_inner')
def _(e, st, c):
    if c.fn['m'] == 'into_inner':
        v = c.args[0]
        x = mk('lockedfinal', v)
        return ok(x)
    v = e.deref(st, c.args[0])
    return ok(mk('ref', ('G', v, c.site), ()))
@m('std::sync::poison::PoisonError::<T>::into_inner')
def _(e, st, c):
    v = c.args[0]
    return v.a[2][0] if v.op == 'agg' and v.a[0] == 'poison' else mk('unpoison', v)
def atomic(e, st, c):
    n = c.fn['m']
    if n == 'new':
        return mk('agg', 'atomic', 0, (c.site,) + tuple(c.args))
    a = e.deref(st, c.args[0])
    r = mk('ret', 'atomic_' + n, (a,) + tuple(x for x in c.args[1:] if x.op != 'agg' or 'Ordering' not in str(x.a[0])), c.site)
    st.emit('atomic', n, a, tuple(c.args[1:]), r)
    if n == 'store':
        return UNIT
    return e.note(r, c.dt)
PREFIX.append(('core::sync::atomic::Atomic', atomic))
@m('rayon_core::scope::scope', 'rayon_core::scope::in_place_scope')
def _(e, st, c):
    sc = mk('scope', c.site)
    st.emit('scope_begin', sc)
    out = []
    for s, r in e.call_value(st, c.fr, c.args[0], [mk('rv', sc)], ('sc', str(c.bb)), None):
        s.emit('scope_end', sc)
        out.append((s, r))
    return out
@m("rayon_core::scope::Scope::<'scope>::spawn")
def _(e, st, c):
    st.emit('spawn', c.args[0], c.args[1])
    return UNIT
@m('rayon_core::join::join')
def _(e, st, c):
    out = []
    for s, a in e.call_value(st, c.fr, c.args[0], [], ('ja', str(c.bb)), None):
        for s2, b in e.call_value(s, c.fr, c.args[1], [], ('jb', str(c.bb)), None):
            out.append((s2, tup(a, b)))
    return out
@m('std::thread::functions::available_parallelism')
def _(e, st, c): return mk('env', 'available_parallelism')
@m('std::thread::functions::yield_now')
def _(e, st, c): return UNIT

# ---------------------------------------------------------------- compression
@m('lz4_flex::block::compress::compress_prepend_size')
def _(e, st, c): return mk('seq', (mk('le', 4, slen(e.deref(st, c.args[0]))), mk('lz4', e.deref(st, c.args[0]))))
@m('lz4_flex::block::compress::get_maximum_output_size')
def _(e, st, c): return mk('lz4max', c.args[0])
@m('lz4_flex::block::compress::compress_into')
def _(e, st, c):
    src = e.deref(st, c.args[0])
    d = e.deref(st, c.args[1])
    n = mk('len', mk('lz4', src))
    s2 = st.copy()
    e.store(st, c.args[1], seq((mk('lz4', src), mk('all', mk('tail', d, n)))) if d.op != 'x' else d)
    st.emit('compress_into', src, c.args[1], c.site)
    er = mk('err', 'compress', c.site)
    s2.emit('fail', 'compress', er)
    return [(st, ok(n)), (s2, err(er))]
@m('lz4_flex::block::decompress_safe::decompress_size_prepended', 'lz4_flex::block::decompress::decompress_size_prepended')
def _(e, st, c):
    src = e.deref(st, c.args[0])
    if e.check_obl:
        s2 = st.copy()
        if s2.facts.assume(le(I(4), slen(src))):
            alloc_note(e, s2, c, rd('le', 4, subseq(src, ZERO, I(4))))
    return failing(e, st, c, 'decompress', mk('unlz4', src))
@m('lz4_flex::block::decompress_safe::decompress', 'lz4_flex::block::decompress::decompress')
def _(e, st, c):
    src = e.deref(st, c.args[0])
    if e.check_obl:
        alloc_note(e, st, c, c.args[1])
    return failing(e, st, c, 'decompress', mk('unlz4raw', src, c.args[1]))
@m('lz4_flex::block::uncompressed_size')
def _(e, st, c):
    src = e.deref(st, c.args[0])
    n = slen(src)
    out = []
    for s, x in fork(e, st, le(I(4), n)):
        if x:
            size = rd('le', 4, subseq(src, ZERO, I(4)))
            out.append((s, ok(tup(size, e.mkrv(subseq(src, I(4), n))))))
        else:
            er = mk('err', 'decompress', c.site)
            s.emit('fail', 'decompress', er)
            out.append((s, err(er)))
    return out

# dynamic calls of the crate's own traits
def concrete(e, self, tr, m):
    """Body of trait method `m` when the receiver is a known value of a concrete type."""
    if self.op != 'agg' or not isinstance(self.a[0], str):
        return None
    for b in e.F.values():
        if b.get('tr') == tr and b['m'] == m and b.get('self') is not None:
            r = e.T[b['self']]
            if r['k'] == 'adt' and r['def'] == self.a[0]:
                return b['inst']
    return None
def receiver(e, st, v):
    v = e.deref(st, v)
    while v.op in ('rv', 'ref'):
        v = e.deref(st, v)
    return v
@m('parcode::compression::Compressor::id')
def _(e, st, c):
    self = receiver(e, st, c.args[0])
    i = concrete(e, self, 'parcode::compression::Compressor', 'id')
    if i is not None:
        return e.inline(st, c.fr, i, [mk('rv', self)], c.bb)
    return mk('cid', self)
@m('parcode::compression::Compressor::compress_append')
def _(e, st, c):
    src = e.deref(st, c.args[1])
    self = receiver(e, st, c.args[0])
    v = e.deref(st, c.args[2])
    s2 = st.copy()
    st.emit('compress', self, src)
    e.store(st, c.args[2], seq(pieces(v) + (mk('cmp', self, src),)))
    er = mk('err', 'compress', c.site)
    s2.emit('fail', 'compress', er)
    e.store(s2, c.args[2], seq(pieces(v) + (mk('all', mk('partial', c.site)),)))
    return [(st, ok(UNIT)), (s2, err(er))]
@m('parcode::compression::Compressor::compress')
def _(e, st, c):
    src = e.deref(st, c.args[1])
    self = receiver(e, st, c.args[0])
    st.emit('compress', self, src)
    return failing(e, st, c, 'compress', mk('agg', COW, 1, (mk('seq', (mk('cmp', self, src),)),)))
@m('parcode::compression::Compressor::decompress')
def _(e, st, c):
    src = e.deref(st, c.args[1])
    self = receiver(e, st, c.args[0])
    st.emit('decompress', self, src)
    return failing(e, st, c, 'decompress', mk('dcow', self, src))
@m('parcode::graph::job::SerializationJob::execute')
def _(e, st, c):
    self = e.deref(st, c.args[0])
    st.emit('execute', self, tuple(c.args[1:]))
    return failing(e, st, c, 'encode', mk('jobout', self, tuple(c.args[1:])))
@m('parcode::graph::job::SerializationJob::config')
def _(e, st, c):
    v = mk('jobcfg', e.deref(st, c.args[0]))
    return v if e.jobcid is None else terms.setfld(v, -1, 'compression_id', I(e.jobcid))
