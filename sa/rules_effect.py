"""C21: reading changes nothing that anybody else can see, and its handles can be shared between threads."""
import re
from core import *
from core import walk
from rules_err import read_rows, read_unit, opname, self_of, result_of

COMP = 'parcode::compression::Compressor'
# calls that change the file system, the process or the opened file
EFFECT = [
    (re.compile(r"std::fs::(File::(create|create_new|set_len|set_permissions|set_modified|set_times|options)\b|(write|remove_\w+|rename|copy|create_\w+|hard_link|set_permissions|set_times)$|DirBuilder)"), 'changes the file system'),
    (re.compile(r"std::fs::OpenOptions::(write|append|truncate|create|create_new)$"), 'opens the file for writing'),
    (re.compile(r"memmap2?::.*(map_mut|map_raw$|map_exec|make_mut|make_exec|MmapMut)"), 'maps the file for writing'),
    (re.compile(r"std::env::(set_var|remove_var|set_current_dir)"), 'changes the environment of the process'),
    (re.compile(r"std::process::(exit|abort|Command)"), 'acts on the process'),
    (re.compile(r"std::panic(king)?::(set_hook|take_hook|update_hook)"), 'changes the panic hook'),
    (re.compile(r"ThreadPoolBuilder.*::build_global"), 'configures the global thread pool'),
    (re.compile(r"std::alloc::(set_alloc_error_hook|take_alloc_error_hook)"), 'changes the allocation hook'),
]
# sources of values other than the file bytes and the arguments
OTHER = re.compile(r"std::env::(var|vars|args|current_dir|temp_dir)|std::time::(Instant|SystemTime)::(now|elapsed)|std::thread::(current|Thread::id)|available_parallelism|current_num_threads|current_thread_index|rand::|RandomState::new|getrandom|std::process::id")
# types with state that changes behind a shared reference, and the calls that change it
CELLS = re.compile(r"core::cell::(UnsafeCell|Cell|RefCell|SyncUnsafeCell)$|std::sync::(poison::)?(mutex::Mutex|rwlock::RwLock)$|core::sync::atomic::Atomic\w*$|std::sync::(mpmc|mpsc)::|crossbeam|parking_lot::")
ONCE = re.compile(r"core::cell::(once|lazy)::|std::sync::(once|once_lock|lazy_lock)::")
CHANGE = re.compile(r"core::cell::(Cell::<T>::(set|replace|take|swap|update|as_ptr)|RefCell::<T>::(borrow_mut|try_borrow_mut|replace|replace_with|swap|take)|UnsafeCell::<T>::(get|raw_get|replace))"
                    r"|std::sync::(poison::)?(mutex::Mutex::<T>::(lock|try_lock|set|replace)|rwlock::RwLock::<T>::(write|try_write|set|replace))"
                    r"|core::sync::atomic::Atomic.*::(store|swap|compare_exchange\w*|compare_and_swap|fetch_\w+|update|try_update|as_ptr)$"
                    r"|std::thread::local::LocalKey::<.*>::(set|replace|take|with_borrow_mut)")
# containers whose own bookkeeping is not state of the program
QUIET = re.compile(r"alloc::(rcs::)?(sync|arc|rc)::|core::marker::PhantomData|std::hash::random|lz4|ahash|hashbrown")

def insts(x, out):
    """Instances mentioned anywhere in a body."""
    if isinstance(x, dict):
        i = x.get('inst')
        if isinstance(i, int):
            out.add(i)
        for v in x.values():
            if isinstance(v, (dict, list)):
                insts(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                insts(v, out)

def reach(ctx, rows):
    """Every function the read operations can run: instance -> the operation it was reached from."""
    fx = ctx.fx
    virt = {}
    for b in fx.F.values():
        if b.get('tr') and not b.get('clos'):
            virt.setdefault((b['tr'], b['m']), []).append(b['inst'])
    seen, todo = {}, [(b['inst'], opname(ctx, b)) for b in rows]
    while todo:
        i, frm = todo.pop()
        if i in seen or i not in fx.F:
            continue
        seen[i] = frm
        b = fx.F[i]
        out = set()
        for bb in b['bbs']:
            insts(bb, out)
            for s in list(bb['ss']) + [bb['t']]:
                closures(fx, s, out)
            t = bb['t']
            if t['t'] == 'call' and t.get('fn') and 'virt' in t['fn']:
                out |= set(virt.get((t['fn']['tr'], t['fn']['m']), ()))
        todo += [(j, frm) for j in sorted(out)]
    return seen

def closures(fx, x, out):
    """Closures and function values passed as operands: the types of constants and aggregates name them."""
    if isinstance(x, dict):
        for k in ('ty', 'dt'):
            if isinstance(x.get(k), int):
                of_type(fx, x[k], out)
        for v in x.get('at') or ():
            if isinstance(v, int):
                of_type(fx, v, out)
        for v in x.values():
            if isinstance(v, (dict, list)):
                closures(fx, v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                closures(fx, v, out)

def of_type(fx, ty, out):
    t = fx.T.get(ty) if isinstance(fx.T, dict) else fx.T[ty]
    if t is None:
        return
    if t.get('k') == 'closure':
        out.add(t['inst'])
    elif t.get('k') == 'fndef' and isinstance(t['fn'].get('inst'), int):
        out.add(t['fn']['inst'])

def passed(fx, t):
    out = set()
    for v in t.get('at') or ():
        of_type(fx, v, out)
    return [i for i in out if i in fx.F]

def captures(fx, t):
    """Does a call pass a closure that captures something?"""
    return any(fx.T[v].get('k') == 'closure' and fx.T[v]['ups'] for v in t.get('at') or ())

def reach_from(fx, i):
    seen, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j in seen or j not in fx.F:
            continue
        seen.add(j)
        out = set()
        for bb in fx.F[j]['bbs']:
            insts(bb, out)
        todo += out
    return seen

def statics(x, out):
    if isinstance(x, dict):
        if x.get('c') == 'static':
            out.add(x.get('p') or '?')
        for v in x.values():
            statics(v, out)
    elif isinstance(x, list):
        for v in x:
            statics(v, out)

def calls(b):
    for bb in b['bbs']:
        t = bb['t']
        if t['t'] == 'call' and t.get('fn'):
            yield t['fn'], t

def cells(ctx, ty):
    """Interior-mutable types inside a type: [(definition, the way to it)]."""
    fx, out, seen = ctx.fx, [], set()
    todo = [(ty, '')]
    while todo:
        i, way = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        t = fx.T[i]
        k = t.get('k')
        if k == 'adt':
            d = t['def']
            if QUIET.search(d):
                todo += [(a, way) for a in t['args']] if 'PhantomData' not in d else []
                continue
            if CELLS.search(d) or ONCE.search(d):
                out.append((d, way or '(itself)'))
                continue
            for v in t['vs']:
                for n, f in v['f']:
                    todo.append((f, '%s.%s' % (way, n) if way else n))
            if t['crate'] not in ('parcode', 'probe'):
                todo += [(a, way) for a in t['args']]
        elif k in ('ref', 'ptr', 'slice', 'array'):
            todo.append((t['t'], way))
        elif k == 'tuple':
            todo += [(x, way) for x in t['ts']]
        elif k == 'closure':
            todo += [(x, way) for x in t['ups']]
        elif k == 'dyn':
            for j, u in (fx.T.items() if isinstance(fx.T, dict) else enumerate(fx.T)):
                if u.get('k') == 'adt' and u.get('crate') == 'parcode' and implements(ctx, u, t['trait']):
                    todo.append((j, way))
    return out

def implements(ctx, t, trait):
    for b in ctx.fx.F.values():
        if b.get('tr') == trait and b.get('self') is not None and ctx.fx.T[b['self']]['s'] == t['s']:
            return True
    return False

def shared_types(ctx, rows):
    """The types of open files, chunk handles, promises and lazy mirrors."""
    fx, out = ctx.fx, {}
    for b in rows:
        if b.get('self') is not None:
            todo = [b['self']]
        else:
            todo = []
        todo.append(b['locs'][0][0])
        n = 0
        while todo and n < 60:
            i = todo.pop(); n += 1
            t = fx.T[i]
            if t.get('k') == 'adt':
                if 'send' in t and (t['def'].startswith(('parcode::reader::', 'parcode::rt::')) or t['crate'] == 'probe' and "Lazy<'" in t['s']) and t['ak'] == 'struct':
                    out[t['s']] = i
                else:
                    todo += t['args']
            elif t.get('k') in ('ref', 'slice', 'array'):
                todo.append(t['t'])
            elif t.get('k') == 'tuple':
                todo += t['ts']
    nexts = {ctx.fx.T[b['self']]['s'] for b in rows if b.get('tr') == 'core::iter::traits::iterator::Iterator' and b.get('self') is not None}
    jobs = {ctx.fx.T[b['self']]['s'] for b in ctx.fx.F.values() if b.get('tr') == 'parcode::graph::job::SerializationJob' and b.get('self') is not None}
    return {s: i for s, i in out.items() if s not in nexts and s not in jobs and 'ShardRun' not in s}

def bare(s):
    s = re.sub(r"::<[^>]*>", "", s)
    s = re.sub(r"<'_>|'_, ?|'a, ?|<'a>", '', s)
    return re.sub(r'\b(?:\w+::)+', '', s)

def c21(ctx):
    fx = ctx.fx
    rows = read_rows(ctx)
    insp = [b for b in fx.F.values() if b['p'].startswith('parcode::inspector::') and not b.get('clos') or b['p'].startswith('parcode::<parcode::inspector::')]
    ctx.count('read operations', len(rows))
    ctx.floor('read operations', 100)
    r = reach(ctx, rows + insp)
    ctx.count('functions a read can run', len(r))
    ctx.floor('functions a read can run', 150)
    for i in r:
        ctx.analysed.add(fx.F[i]['p'])
    handles = shared_types(ctx, rows)
    threads(ctx, handles)
    held = interior(ctx, handles)
    effects(ctx, r, held)
    inputs(ctx, rows)

def threads(ctx, handles):
    rule = 'handles are Send and Sync'
    for s, i in sorted(handles.items()):
        t = ctx.fx.T[i]
        ctx.count('handle types')
        for tr in ('send', 'sync'):
            ctx.ob(rule)
            if not t[tr]:
                ctx.violate('%s: not %s' % (bare(s), tr.capitalize()), '%s is not %s, so it cannot be %s another thread' % (s, tr.capitalize(), 'sent to' if tr == 'send' else 'used from'))
    ctx.floor('handle types', 8)

def interior(ctx, handles):
    """State inside the handles that can change behind a shared reference."""
    rule = 'handles hold no state that changes behind a shared reference'
    held = {}
    for s, i in sorted(handles.items()):
        ctx.ob(rule)
        for d, way in cells(ctx, i):
            held.setdefault(d, '%s.%s' % (bare(s), way))
    return held

def family(name):
    """The cell type a call or a definition is about."""
    m = re.search(r"(UnsafeCell|RefCell|Cell|Mutex|RwLock|Atomic|LocalKey)", name)
    return m.group(1) if m else None

def effects(ctx, r, held):
    fx = ctx.fx
    rule1, rule2, rule3 = 'reads have no effect outside the process', 'reads do not change shared state', 'reads use no mutable statics'
    fams = {family(d): (d, w) for d, w in held.items() if family(d)}
    changed = set()
    ty = {x['usedstatic']: x for x in fx.other if 'usedstatic' in x}
    for i, frm in sorted(r.items()):
        b = fx.F[i]
        cs = list(calls(b))
        ss = set()
        statics(b['bbs'], ss)
        for s in sorted(ss):
            x = ty.get(s)
            ctx.ob(rule3)
            if x is None or (x['freeze'] and not x['mut']):
                continue
            muts = [fn['p'] for fn, t in cs if CHANGE.search(fn['p']) or ONCE.search(fn['p']) and (fn['m'] in ('set', 'try_insert') or fn['m'].startswith('get_or') and captures(fx, t))]
            if x['mut'] or muts:
                ctx.violate('%s: static %s' % (bare(b['p']), s.split('::')[-1]), '%s, which %s runs, changes the static %s (%s)' % (b['p'], frm, s, ', '.join(muts) or 'static mut'))
            else:
                ctx.undec('%s uses the static %s: %s' % (bare(b['p']), s, x['ty']))
        for fn, t in cs:
            p = fn['p']
            ctx.count('calls on read paths')
            ctx.ob(rule1)
            for rx, what in EFFECT:
                if rx.search(p):
                    ctx.violate('%s: %s' % (bare(b['p']), bare(p)), '%s, which %s runs, %s: it calls %s' % (b['p'], frm, what, p), t.get('sp', ''))
            if fn.get('tr') == 'core::io::write::Write' and any('std::fs::File' in fx.T[x]['s'] for x in t.get('at') or ()):
                ctx.violate('%s: writes to a file' % bare(b['p']), '%s, which %s runs, writes to a file' % (b['p'], frm), t.get('sp', ''))
            ctx.ob(rule2)
            if 'thread::local::LocalKey' in p and fn['m'] in ('with', 'try_with'):
                for g in passed(fx, t):
                    for h in reach_from(fx, g):
                        for fn2, _ in calls(fx.F[h]):
                            if CHANGE.search(fn2['p']) and family(fn2['p']) in ('Cell', 'RefCell', 'UnsafeCell'):
                                ctx.violate('%s: thread local state' % bare(b['p']), '%s, which %s runs, changes thread local state through %s' % (b['p'], frm, fn2['p']), t.get('sp', ''))
            if CHANGE.search(p):
                f = family(p)
                if f == 'LocalKey':
                    ctx.violate('%s: thread local state' % bare(b['p']), '%s, which %s runs, changes thread local state through %s' % (b['p'], frm, p), t.get('sp', ''))
                elif f in fams:
                    changed.add(f)
                    ctx.violate('%s: %s' % (bare(b['p']), bare(p)), '%s, which %s runs, changes state behind a shared handle (%s): it calls %s' % (b['p'], frm, fams[f][1], p), t.get('sp', ''))
    ctx.floor('calls on read paths', 500)
    for d, way in sorted(held.items()):
        if family(d) not in changed:
            ctx.undec('%s is a %s, whose use could not be judged' % (way, d))
    for x in ctx.fx.inv:
        if x.get('uop') == 'thread_local':
            ctx.undec('thread local in %s' % x['in'])

def inputs(ctx, rows):
    """Results depend on the file bytes and the arguments alone."""
    rule = 'results depend only on the file and the arguments'
    for b in rows:
        u = read_unit(ctx, b)
        if u is None:
            continue
        for o in u.outs:
            ctx.ob(rule)
            ts = [o.ret] + [v for k, v in o.st.m.items() if k[0] == 'S']
            bad = {s.a[0] for t in ts if isinstance(t, Tm) for s in subterms(t) if s.op == 'ret' and OTHER.search(str(s.a[0]))}
            fb = {s.a[0] for t in list(o.facts.b) + list(o.facts.v) + list(o.facts.q) if isinstance(t, Tm) for s in subterms(t) if s.op == 'ret' and OTHER.search(str(s.a[0]))}
            for n in sorted(bad):
                ctx.violate('%s: depends on %s' % (opname(ctx, b), bare(n)), 'the result of %s contains the value of %s' % (opname(ctx, b), n))
            for n in sorted(fb - bad):
                ctx.undec('%s branches on %s' % (opname(ctx, b), n))
