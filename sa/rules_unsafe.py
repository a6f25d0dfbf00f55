"""C26: the unsafe operations of the library, and the checks that make them sound."""
import re
from core import *
from core import walk
import units
import rules_load as L
from rules_write import judge, short
from rules_err import read_rows, read_unit, opname, self_of

# operations no load buffer and no memory map needs
NEVER = re.compile(r"transmute|get_unchecked|_unchecked(_mut)?$|unreachable_unchecked|mem::zeroed|mem::uninitialized|mem::maybe_uninit::MaybeUninit::<T>::zeroed|ptr::(mut_ptr|const_ptr).*::(read|as_ref|as_mut)|ptr::read|Box::<.*from_raw|Arc::<.*from_raw|Rc::<.*from_raw|MmapMut|map_mut|map_raw|map_copy|^fn pointer$|String::from_raw_parts|from_ptr|static_mut|extend_lifetime")
BULK = re.compile(r"Vec::<T, A>::set_len|Vec::<T>::from_raw_parts|slice::raw::from_raw_parts(_mut)?|ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(add|sub|offset|cast|write|copy_from_nonoverlapping|copy_to_nonoverlapping)|ptr::copy(_nonoverlapping)?$|ptr::write$|MaybeUninit::<T>::assume_init|Mmap::map$")
MAP = re.compile(r"Mmap::map")
PTRS = re.compile(r"int2ptr|ptr2int|ptrcast")

def plain(p):
    return p.replace('parcode::', '')

def bare(t):
    """The pointee of a pointer type, without slots and slices."""
    t = re.sub(r"^[*&](mut |const )?", '', t.strip())
    t = t.strip('[]')
    m = re.match(r"core::mem::maybe_uninit::MaybeUninit<(.*)>$", t)
    return m.group(1) if m else t

def ops(ctx):
    rows = [dict(r, where='library') for r in ctx.fx.inv if 'uop' in r]
    rows += [dict(r, where='derived code') for r in ctx.fx.other if 'uop' in r and r.get('exp')]
    return [r for r in rows if r['uop'] != 'safecall' and not r['what'].startswith('core::fmt::')]

def fname(p):
    return re.sub(r"::<'a(, T)?>|<'a>|<'_>", '', plain(p))

def c26(ctx):
    fns = {}
    for r in ctx.fx.inv:
        if 'fn' in r:
            fns.setdefault(r['fn'], r)
    rule = 'unsafe operations serve load buffers and memory maps only'
    bulk = []
    for r in ops(ctx):
        k, what, f = r['uop'], r['what'], fname(r['in'])
        ctx.count('unsafe operations')
        ctx.ob(rule)
        if k == 'call':
            if NEVER.search(what):
                ctx.violate('%s: %s' % (f, what), 'calls %s%s' % (what, '' if not r['args'] else ' for %s' % ', '.join(r['args'])), r['sp'])
            elif BULK.search(what):
                bulk.append(r)
            else:
                ctx.undec('%s: unsafe call of %s' % (f, what))
        elif k in ('union', 'static', 'asm'):
            ctx.violate('%s: %s' % (f, k), {'union': 'reads a field of the union %s', 'static': 'uses the mutable static %s', 'asm': 'assembly%s'}[k] % what, r['sp'])
        elif k == 'deref':
            bulk.append(r)
        elif k == 'thread_local':
            ctx.undec('%s: thread local %s' % (f, what))
        elif k == 'ptrcast':
            a, b = bare(r['args'][0]), bare(r['args'][1])
            if a != b and b not in ('u8', 'i8', '()', 'core::ffi::c_void') and 'dyn ' not in b:
                ctx.violate('%s: pointer to %s' % (f, b), 'a pointer to %s is used as a pointer to %s' % (a, b), r['sp'])
            bulk.append(r)
        else:
            bulk.append(r)
    ctx.floor('unsafe operations', 8)
    # what makes the bulk operations sound
    L.c10(ctx)
    covered(ctx, bulk)
    lifetimes(ctx, bulk, fns)
    addresses(ctx, bulk, fns)
    promises(ctx, fns)
    maps(ctx, [r for r in bulk if MAP.search(r['what'])])

def covered(ctx, bulk):
    """Every site lies in an operation whose paths have been analysed."""
    seen = {plain(p.split('::{closure')[0]) for p in ctx.analysed}
    sps = {r['sp'] for r in bulk if plain(r['in']) in seen}
    for r in bulk:
        if r['uop'] == 'call' and MAP.search(r['what']):
            continue
        if r['where'] == 'library' and plain(r['in']) not in seen and r['sp'] not in sps:
            ctx.undec('%s: %s outside the analysed operations' % (fname(r['in']), r['what'] or r['uop']))
        else:
            ctx.count('sites inside analysed operations')

def carries(t):
    """Does the value itself hold a slice made from a raw pointer (not merely a number computed from one)?"""
    if isinstance(t, tuple):
        return any(carries(x) for x in t)
    if not isinstance(t, Tm):
        return False
    if t.op == 'rawslice':
        return True
    return t.op in ('agg', 'rv', 'sub', 'splice', 'seq', 'b', 'upd', 'slice', '*', 'bytesof') and any(carries(x) for x in t.a)

def lifetimes(ctx, bulk, fns):
    """A reference made from a raw pointer stays inside the call that made it."""
    rule = 'no reference made from a raw pointer escapes'
    for b in read_rows(ctx):
        f = fns.get(b['p'])
        if f is not None and not f['pub']:
            continue
        u = read_unit(ctx, b)
        if u is None:
            continue
        for o in u.outs:
            if any(x[0] == 'raw_slice' for x in walk(o.ev)) or any_op(o.ret, ('rawslice',)):
                bad = carries(o.ret) or any(carries(v) for r, v in o.st.m.items() if r[0] == 'S')
                judge(ctx, rule, not bad, '%s: slice from a raw pointer' % opname(ctx, b), 'a slice made from a raw pointer leaves %s, so its lifetime is not checked' % opname(ctx, b), path_text(o))
    seen = {plain(p.split('::{closure')[0]) for p in ctx.analysed}
    for r in bulk:
        f = fns.get(r['in'])
        t = f['ret'] if f else ''
        made = r['uop'] == 'deref' or r['uop'] == 'call' and 'slice::raw::from_raw_parts' in r['what']
        if not made:
            continue
        ctx.ob(rule)
        if f and f['pub'] and ('&' in t or "'" in t) and (r['uop'] == 'deref' or plain(r['in']) not in seen):
            ctx.violate('%s: reference from a raw pointer' % fname(r['in']), 'a raw pointer becomes a reference in a public function that returns %s, so the lifetime of the result is not checked' % t, r['sp'])
        elif r['uop'] == 'deref':
            ctx.undec('%s: raw pointer dereferenced' % fname(r['in']))

def addresses(ctx, bulk, fns):
    """No safe function the client can call makes a pointer from a number or pointer the client chooses."""
    rule = 'clients cannot choose addresses'
    seen = {plain(p.split('::{closure')[0]) for p in ctx.analysed}
    for n in sorted({r['in'] for r in bulk}):
        f = fns.get(n)
        if f is None:
            continue
        ctx.ob(rule)
        if not f['pub'] or f['unsafe'] or f['tr']:
            continue
        if plain(n) not in seen and any(r['in'] == n and r['uop'] == 'int2ptr' for r in bulk):
            ctx.violate('%s: address from the caller' % fname(n), 'the safe public function %s, which no analysed operation calls, makes a pointer from a number' % fname(n), f['sp'])
            continue
        for b in ctx.fx.F.values():
            if b['p'] != n or b.get('clos'):
                continue
            nums = set()
            for i in range(b['argc']):
                t = ctx.fx.T[b['locs'][i + 1][0]]
                if t['s'] == 'usize' or t.get('k') == 'ptr' or t['s'] in ('u64', 'isize'):
                    nums.add(mk('p', b['locs'][i + 1][1] or 'a%d' % i))
            if not nums:
                continue
            u = read_unit(ctx, b)
            if u is None:
                continue
            for o in u.outs:
                for x in walk(o.ev):
                    ps = [x[1]] if x[0] == 'raw_slice' else list(x[1][:2]) if x[0] in ('rawcopy', 'rawwrite') else []
                    for p in ps:
                        base = L.base_off(p)[0] if isinstance(p, Tm) else p
                        while isinstance(base, Tm) and base.op in ('ptr', 'ptrof', 'addr', 'cast', 'int2ptr') :
                            base = base.a[0]
                        if base in nums:
                            ctx.violate('%s: address from the caller' % fname(n), 'the safe public function %s makes a pointer from its argument %s' % (fname(n), short(base)), f['sp'])
    for r in ctx.fx.inv:
        if 'impl' in r and r['unsafe'] and 'TrivialClone' not in r['impl']:
            ctx.ob(rule)
            ty = re.sub(r"<.*", '', r['for'])
            pub = any('adt' in q and q['pub'] and plain(q['adt']) == plain(ty) for q in ctx.fx.inv)
            if pub:
                ctx.violate('unsafe impl %s for %s' % (r['impl'], r['for']), 'the compiler cannot check that %s is %s' % (r['for'], r['impl']), r['sp'])
            else:
                ctx.undec('unsafe impl %s for %s' % (r['impl'], r['for']))
        if 'static' in r:
            ctx.ob(rule)
            if r['mut']:
                ctx.violate('static mut %s' % r['static'], 'a mutable static', r['sp'])

def promises(ctx, fns):
    """Initialised-ness must not be taken from a safe trait method a client may implement."""
    rule = 'initialisation is not taken on trust from client code'
    used = set()
    for b in read_rows(ctx):
        u = read_unit(ctx, b)
        if u is None:
            continue
        for o in u.outs:
            evs = list(o.ev)
            for at, x in enumerate(evs):
                if x[0] == 'vec_from_raw':
                    ctx.ob(rule)
                    used |= {y[0] for y in walk(evs[:at]) if y[0] in ('read_into_slice', 'read_slice_from_shard', 'read_from_shard')}
    for m in sorted(used):
        for f in fns.values():
            if f['m'] == m and f['intrait'] and f['pub'] and not f['unsafe']:
                tr = f['tr'] or f['fn'].rsplit('::', 1)[0]
                impls = [r for r in ctx.fx.inv if 'impl' in r and plain(r['impl']) == plain(tr)]
                if impls and all(r['unsafe'] for r in impls):
                    continue
                if m == 'read_into_slice':
                    ctx.violate('safe trait method %s' % m, 'a vector is assembled from slots that the safe, public, overridable method %s::%s claims to have initialised' % (plain(tr).split('::')[-1], m), f['sp'])

def maps(ctx, rows):
    """A memory map is read-only, made of a file the same call opened for reading, and owned by the open file."""
    rule = 'maps are read-only and owned'
    for r in rows:
        ctx.ob(rule)
        ctx.count('memory maps')
    for n in sorted({r['in'] for r in rows}):
        for b in ctx.fx.F.values():
            if b['p'] != n or b.get('clos'):
                continue
            u = read_unit(ctx, b)
            if u is None:
                continue
            for o in u.outs:
                opens = [x for x in walk(o.ev) if x[0] == 'io']
                bad = [x for x in opens if any(w in str(x[1]) for w in ('create', 'write', 'append', 'truncate', 'set_len', 'options'))]
                judge(ctx, rule, not bad, '%s: writable file' % fname(n), 'the mapped file is opened with %s' % ', '.join(str(x[1]) for x in bad), path_text(o))
