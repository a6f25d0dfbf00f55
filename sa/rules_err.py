"""C14 and the reading half of C27: a failed read step is reported, with its cause, and never turned into data."""
import re
from core import *
from core import walk
import units, terms
import rules_write as W
from rules_write import judge, short, is_some

READ_TRAITS = (units.NAT, units.ITEM, units.LAZY)
NEXT = 'core::iter::traits::iterator::Iterator'
COMP = 'parcode::compression::Compressor'

def self_of(ctx, b):
    return ctx.fx.T[b['self']]['s'] if b.get('self') is not None else ''

def is_inspector(ctx, b):
    return 'nspect' in b['p'].split('::<')[0] or b['m'].startswith('inspect') or 'nspector' in self_of(ctx, b)

def public(ctx, b):
    if b.get('tr'):
        return True
    r = ctx.cache.setdefault('pubfns', {x['fn']: x['pub'] for x in ctx.fx.inv if 'fn' in x})
    return r.get(b['p'], True)

def read_rows(ctx):
    """Every read operation: the methods of files, nodes and promises, the iterators, and every implementation of the read traits."""
    if 'readrows' in ctx.cache:
        return ctx.cache['readrows']
    rows, seen = [], set()
    for b in sorted(ctx.fx.F.values(), key=lambda b: (b['p'], self_of(ctx, b))):
        if b.get('clos') or b['inst'] in seen:
            continue
        tr, ok = b.get('tr'), False
        if tr in READ_TRAITS:
            ok = True
        elif tr == COMP and b['m'].startswith('decompress'):
            ok = True
        elif b['crate'] == 'parcode' and b.get('self') is not None and (not tr or (tr == NEXT and b['m'] in ('next', 'nth', 'last', 'count'))):
            s = ctx.fx.T[b['self']]
            ok = s.get('k') == 'adt' and (s.get('def', '').startswith(('parcode::reader::', 'parcode::rt::')) or (s.get('def') == 'parcode::api::Parcode' and b['m'].startswith(('open', 'load'))))
        if ok and not is_inspector(ctx, b) and public(ctx, b):       # private helpers are judged in the operations that call them
            seen.add(b['inst'])
            rows.append(b)
    ctx.cache['readrows'] = rows
    return rows

def read_unit(ctx, b):
    s = self_of(ctx, b)
    keep = ((s, b['m']),) if b.get('tr') in READ_TRAITS else (b['m'],)
    return ctx.unit(b, ('traits', 'node', 'root', 'decode'), keep=keep, split_paths=True)

def opname(ctx, b):
    """Stable name of an operation: the type without lifetimes and the method."""
    s = re.sub(r"<'_>|'_, ?|'a, ?|<'a>", '', self_of(ctx, b))
    s = re.sub(r'\b(?:\w+::)+', '', s)
    tr = b.get('tr')
    return ('%s::%s' % (s, b['m'])) if s else b['m'] if not tr else '%s::%s' % (tr.split('::')[-1], b['m'])

def result_of(t):
    """(is error, payload) of an outcome: Err(e), Some(Err(e)), Ok(v), Some(Ok(v)), v."""
    if is_err(t):
        return True, t.a[2][0]
    if is_some(t) and is_err(t.a[2][0]):
        return True, t.a[2][0].a[2][0]
    if is_some(t) and is_ok(t.a[2][0]):
        return False, t.a[2][0].a[2][0]
    return False, okv(t)

def okv(t):
    return t.a[2][0] if is_ok(t) else t

def failures(o):
    return [x for x in walk(o.ev) if x[0] == 'fail' and x[1] not in ('poison', 'reserve')]

def fallible(u):
    return any(x[0] == 'fail' for o in u.outs for x in walk(o.ev))

def empty_value(v):
    """Ok(None), Ok(empty collection), an empty map, zero: results that claim there is nothing there."""
    if v.op == 'agg' and v.a[0] == 'core::option::Option' and v.a[1] == 0:
        return True
    if v.op in ('seq', 'str') and slen(v) is I(0):
        return True
    if v.op == 'map' and not any(pieces(x) for x in v.a if isinstance(x, Tm) and x.op == 'seq'):
        return True
    return False

def says_empty(o):
    """Path conditions that say the data itself is empty: an empty payload, no children, or a recorded count of zero."""
    F = o.facts
    for a in list(F.q) + list(F.b):
        if not isinstance(a, Tm):
            continue
        for s in subterms(a):
            if s.op == 'len' and any(x.op == 'payload' for x in subterms(s)):
                if F.leq0(s):
                    return 'empty payload'
            elif s.op in ('rd', 'dec') and any(x.op == 'payload' for x in subterms(s)) and F.leq0(s):
                return 'recorded count 0'
            elif s.op == 'fld' and s.a[-1] == terms.CC[0] and F.leq0(s):
                return 'no children'
    return None

def c14(ctx):
    for b in read_rows(ctx):
        u = read_unit(ctx, b)
        if u is None or not fallible(u):
            continue
        n = opname(ctx, b)
        ctx.count('fallible read operations')
        for o in u.outs:
            bad, v = result_of(o.ret)
            fs = failures(o)
            if fs:
                ctx.ob('a failed step makes the operation fail')
                if not bad:
                    judge(ctx, 'a failed step makes the operation fail', False, '%s hides a failed read' % n if not n.endswith(('::len', '::is_empty')) else n.rsplit('::', 1)[1],
                          '%s returns %s although %s failed' % (n, short(o.ret), fs[0][1]), path_text(o))
            elif not bad:
                if is_ok(o.ret) and empty_value(v):
                    ctx.ob('an empty result says what the file says')
                    why = says_empty(o) or ('records searched' if any(x[0] == 'loop' for x in o.ev) or loop_fact(o) else None) or ('decoded value' if any(x[0] in ('decode_node', 'decode', 'coll', 'from_node') for x in o.ev) else None)
                    if why is None:
                        judge(ctx, 'an empty result says what the file says', bool(murky(o.ev, o.facts)), '%s invents an empty result' % n,
                              '%s returns %s on a path that never saw an empty payload, a zero count or the end of the records' % (n, short(o.ret)), path_text(o))
                    else:
                        ctx.count('empty results: ' + why)
    ctx.floor('fallible read operations', 60)

def loop_fact(o):
    return any(s.op in ('phi', 'rep', 'itm') for a in list(o.facts.q) + list(o.facts.b) + list(o.facts.v) if isinstance(a, Tm) for s in subterms(a))

FRESH = ('Format', 'Compression', 'Serialization')

def errors(ctx):
    """Reading half of C27."""
    for b in read_rows(ctx):
        u = read_unit(ctx, b)
        if u is None or not fallible(u):
            continue
        n = opname(ctx, b)
        ctx.count('reader bodies')
        for o in u.outs:
            bad, e = result_of(o.ret)
            if not bad:
                continue
            fs = failures(o)
            if fs:
                W.error_kept(ctx, n, n, e, fs[-1], o.facts, path_text(o))
            else:
                v = variant_name(ctx.fx, e)
                ctx.ob('malformed input is a format error')
                if v is not None:
                    judge(ctx, 'malformed input is a format error', v in FRESH, '%s: error category' % n, '%s reports malformed content as %s' % (n, v), path_text(o))
    ctx.floor('reader bodies', 60)
