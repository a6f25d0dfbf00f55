"""Writer rules: completeness, trailer, ordering, offsets, layout, executor equivalence, compression choice."""
from core import *
from core import walk
import domain
from units import unit
from models import NONE, some

def judge(ctx, rule, ok, key, msg, detail='', terms_=()):
    ctx.ob(rule)
    if ok:
        return True
    if resolved(*terms_):
        ctx.violate(key, msg, detail)
    else:
        ctx.undec('%s: %s' % (key, msg))
    return False

def short(t, n=200):
    return sh(t, n)

# ---------------------------------------------------------------- structure of the task graph (discovered by type)
class GraphShape:
    """Field names of the graph node, found by their types."""
    def __init__(self, fx):
        self.ok = False
        for r in fx.T.values():
            if r.get('k') == 'adt' and r.get('crate') == 'parcode' and r.get('vs') and len(r['vs']) == 1:
                fs = {n: fx.T[t]['s'] for n, t in r['vs'][0]['f']}
                job = [n for n, s in fs.items() if s.startswith('alloc::boxed::Box<') and 'SerializationJob' in s]
                if job and 'onfiguredJob' not in r['s']:
                    deps = [n for n, s in fs.items() if 'atomic::Atomic' in s]
                    kids = [n for n, s in fs.items() if 'Mutex<' in s and 'ChildRef' in s]
                    par = [n for n, s in fs.items() if s.startswith('core::option::Option<') and 'ChunkId' in s]
                    slot = [n for n, s in fs.items() if s == 'core::option::Option<usize>']
                    if len(deps) == len(kids) == len(par) == len(slot) == 1:
                        self.ok = True
                        self.def_ = r['def']
                        self.job, self.deps, self.kids, self.parent, self.slot = job[0], deps[0], kids[0], par[0], slot[0]
                        self.ty = r['s']

def shape(ctx):
    if not hasattr(ctx, '_shape'):
        ctx._shape = GraphShape(ctx.fx)
        if not ctx._shape.ok:
            raise Anchor('graph node type not recognised')
    return ctx._shape

# ---------------------------------------------------------------- model of one entry point
class Path:
    """One way of processing one chunk: events between picking up the node and finishing or failing."""
    pass

class Writer:
    def __init__(self, ctx, name, args=None, jobcid=None):
        self.ctx, self.name = ctx, name
        row = ctx.row('probe::write::' + name)
        kw = {}
        if jobcid is not None:
            kw['jobcid'] = jobcid
        self.u = ctx.unit(row, ('traits',), args=args, **kw)
        self.paths = []
        self.ok, self.err = [], []
        if self.u is None:
            return
        u = self.u
        self.ok = [o for o in u.outs if is_ok(o.ret)]
        self.err = [o for o in u.outs if not is_ok(o.ret)]
        self.spawns = []
        for o in u.outs:
            for x in walk(o.ev):
                if x[0] == 'spawn' and x[2] not in self.spawns:
                    self.spawns.append(x[2])
        self.parallel = bool(self.spawns)
        self.G = {}
        for o in u.outs:
            for x in walk(o.ev):
                for t in x[1:]:
                    if isinstance(t, Tm):
                        for q in subterms(t):
                            if q.op == 'visited':
                                self.G[q] = mk('p', 'G')
        self.workers = {}
        if self.parallel:
            for s in self.spawns:
                self.add_worker(s)
        self.loops = {}
        for o in u.outs:
            for x in walk(o.ev):
                if x[0] == 'loop' and any(y[0] == 'execute' for c, e in x[3] for y in walk(e)):
                    self.loops[x[1]] = x
        self.serial = bool(self.loops)
        for lid, x in self.loops.items():
            for c, e in x[3]:
                f = domain.Facts()
                for q in c:
                    f.assume(q)
                self.add_path('serial', e, f, None, lid)
            # failing last iterations: events after the loop summary
            for o in u.outs:
                if not is_ok(o.ret):
                    i = next((i for i, y in enumerate(o.ev) if y[0] == 'loop' and y[1] == lid), None)
                    if i is not None:
                        tail = o.ev[i + 1:]
                        if not any(y[0] == 'sink' and self.is_trailer(y) for y in tail) and any(y[0] in ('lock', 'execute', 'compress') for y in tail):
                            self.add_path('serial', tail, o.facts, o.ret, lid)
    def node_upvar(self, s):
        e = self.u.e
        inst = int(s.a[0].split(':')[1])
        row = e.F.get(inst)
        if row is None:
            return None
        ty = e.ty(row['locs'][1][0])
        if ty['k'] == 'ref':
            ty = e.ty(ty['t'])
        ups = ty.get('ups') or []
        sp = shape(self.ctx)
        c = [i for i, t in enumerate(ups) if e.tys(t).lstrip('&').startswith(sp.def_)]
        return c[0] if len(c) == 1 else None
    def add_worker(self, s):
        i = self.node_upvar(s)
        if i is None:
            self.ctx.undec('%s: worker closure takes no single graph node' % self.name)
            return
        s = subst(s, self.G)
        ups = list(s.a[2])
        node = ups[i]
        ups[i] = mk('p', 'node')
        w = mk('agg', s.a[0], 0, tuple(ups))
        self.workers.setdefault(w, []).append(node)
        if len(self.workers[w]) > 1:
            return
        try:
            outs = self.u.e.call_value(St(), None, w, [mk('p', 'scope')], ('w',))
        except Undecided as x:
            self.ctx.undec('%s worker: %s' % (self.name, x))
            return
        for inst in self.u.e.analysed:
            self.ctx.analysed.add(self.ctx.fx.F[inst]['p'])
        nested = []
        for st, v in outs:
            self.add_path('worker', st.ev, st.facts, v, w)
            for x in self.paths[-1].spawn:
                if x[2] not in nested:
                    nested.append(x[2])
        for x in nested:
            self.add_worker(x)
    def add_path(self, kind, ev, facts, ret, owner):
        p = Path()
        p.kind, p.raw, p.facts, p.ret, p.owner = kind, ev, facts, ret, owner
        p.w = self
        p.ev = list(walk(ev))
        p.exe = [x for x in p.ev if x[0] == 'execute']
        p.cmp = [x for x in p.ev if x[0] == 'compress']
        p.writes = [x for x in p.ev if x[0] == 'sink' and x[1] != 'flush']
        p.fails = [x for x in p.ev if x[0] == 'fail']
        p.spawn = [x for x in p.ev if x[0] == 'spawn']
        sp = shape(self.ctx)
        p.node = mk('*', mk('p', 'node')) if kind == 'worker' else None
        if kind == 'serial':
            for x in p.ev:
                for t in x[1:]:
                    if isinstance(t, Tm):
                        for q in subterms(t):
                            if q.op == 'fld' and q.a[2] == sp.job and p.node is None:
                                p.node = q.a[0]
            if p.node is None:
                for x in p.ev:
                    if x[0] == 'lock' and x[1].op == 'fld' and x[1].a[2] == sp.kids:
                        p.node = x[1].a[0]
                        break
        m = dict(self.G)
        if p.node is not None:
            m[p.node] = mk('p', 'N')
            n2 = subst(p.node, self.G)
            m[n2] = mk('p', 'N')
        p.m = m
        if kind == 'serial' and p.node is None:
            return
        p.abort = False
        if kind == 'worker' and not p.exe and not p.writes:
            p.abort = any(x[0] == 'atomic' and x[1] == 'load' and facts.implies(neg(eqz(x[4]))) or
                          (x[0] == 'atomic' and x[1] == 'load' and facts.b.get(x[4]) is True) for x in p.ev)
        why = murky(ev, facts)
        if why:
            self.ctx.opaque[self.name] = why
        self.paths.append(p)
    def is_trailer(self, x):
        return x[0] == 'sink' and x[1] == 'write' and trailer_parts(x[3]) is not None
    def norm(self, t, p):
        """Call-site independent form of a term of path p, with the node named N and the graph named G."""
        return strip_sites(subst(subst(t, p.m), p.m))
    def kids(self, p):
        """Terms standing for the locked child table of the node on path p."""
        sp = shape(self.ctx)
        return mk('locked', mk('fld', mk('p', 'N'), -1, sp.kids), UNIT)

def trailer_parts(content):
    """Pieces of a write that begins with the magic, or None."""
    ps = pieces(content)
    if len(ps) < 4:
        return None
    mg = [p.a[0].a[0] if p.op == 'b' and isint(p.a[0]) else None for p in ps[:4]]
    return ps if mg == [80, 65, 82, 52] else None

PAR = ('save', 'write', 'serialize', 'opt_save', 'opt_write')
SYNC = ('save_sync', 'write_sync', 'opt_save_sync', 'opt_write_sync')

def writers(ctx, names=PAR + SYNC):
    out = []
    for n in names:
        if not ctx.here(n):
            continue
        if ('W', n) not in ctx.cache:
            ctx.cache[('W', n)] = Writer(ctx, n)
        w = ctx.cache[('W', n)]
        if w.u is not None:
            out.append(w)
    return out

# ---------------------------------------------------------------- C01
def job_rows(ctx):
    """Every implementation behind the writer seams: jobs, shallow encoders, compressors."""
    rows = []
    for b in ctx.fx.F.values():
        if b.get('tr') in ('parcode::graph::job::SerializationJob', 'parcode::visitor::ParcodeVisitor', 'parcode::compression::Compressor') \
                and b['m'] in ('execute', 'serialize_shallow', 'serialize_slice', 'compress', 'compress_append'):
            rows.append(b)
    return sorted(rows, key=lambda b: (b['m'], ctx.fx.T[b['self']]['s'] if b.get('self') is not None else ''))

def rowname(ctx, b):
    s = ctx.fx.T[b['self']]['s'] if b.get('self') is not None else ''
    return '%s::%s' % (s, b['m'])

def keepset(ctx, b):
    """Own methods of the type are inlined (only calls on other types stay abstract)."""
    s = ctx.fx.T[b['self']]['s']
    return ((s, 'serialize_shallow'),) if b['m'] == 'serialize_slice' and False else ()

def seam_unit(ctx, b, seams=('traits',), **kw):
    return ctx.unit(b, seams, keepset(ctx, b) if b.get('self') is not None else (), **kw)

def fail_is_err(ctx, u, name, kinds=None):
    """No outcome that met a failure returns Ok."""
    for o in u.outs:
        fs = [x for x in walk(o.ev) if x[0] == 'fail' and x[1] != 'poison']
        ctx.ob('a failing step makes the function fail')
        if fs and not is_err(o.ret):
            if is_ok(o.ret) or resolved(o.ret):
                ctx.violate('%s swallows %s' % (name, fs[0][1]), '%s returns %s although %s failed' % (name, short(o.ret, 80), fs[0][1]), path_text(o))
            else:
                ctx.undec('%s: result after failure %s' % (name, short(o.ret)))

def flush_last(ctx, w):
    for o in w.ok:
        ev = list(o.ev)
        sinks = [x for x in walk(o.ev) if x[0] == 'sink']
        inner = [x for p in w.paths for x in p.writes]
        ctx.ob('a successful save ends with a flush of the sink')
        if not sinks or not any(x[1] != 'flush' for x in sinks):
            ctx.violate('%s: writes nothing' % w.name, '%s returns Ok without writing a trailer' % w.name, path_text(o))
            continue
        last = sinks[-1]
        tg = {strip_sites(subst(x[2], w.G)) for x in sinks + inner if x[1] != 'flush'}
        if last[1] != 'flush':
            ctx.violate('%s: not flushed' % w.name, '%s returns Ok with buffered data not flushed after the last write' % w.name, path_text(o))
        elif not all(any(t == strip_sites(subst(x[2], w.G)) for x in sinks if x[1] == 'flush') for t in tg):
            if resolved(*[x[2] for x in sinks]):
                ctx.violate('%s: flushes another writer' % w.name, '%s flushes %s but writes to %s' % (w.name, short(last[2]), short(tuple(tg))), path_text(o))
            else:
                ctx.undec('%s: flush target %s' % (w.name, short(last[2])))
        # after scope end / in the same thread
        idx = [i for i, x in enumerate(ev) if x[0] == 'scope_end']
        fl = [i for i, x in enumerate(ev) if x[0] == 'sink' and x[1] == 'flush']
        if idx and fl and fl[-1] < idx[-1]:
            ctx.violate('%s: flush before the workers finished' % w.name, '%s flushes before joining its workers' % w.name, path_text(o))
        ptw = [x for x in walk(o.ev) if x[0] == 'sink' and x[1] == 'partial_write']
        for x in ptw + [x for p in w.paths for x in p.writes if x[1] == 'partial_write']:
            n = mk('ret', 'written', (x[3],), x[4])
            fs = [o.facts] + [p.facts for p in w.paths if x in p.writes]
            ctx.undec('%s: write() whose count needs a loop' % w.name) if any(contains(c, n) for f in fs for c in f.conds()) else \
                ctx.violate('%s: short write ignored' % w.name, '%s uses Write::write and ignores how much was accepted' % w.name, path_text(o))

def effects(p):
    """(registrations, decrements, spawns, captures) of a path, in event order with positions."""
    sp = shape(p.w.ctx)
    reg, dec, cap, errs, stores = [], [], [], [], []
    held = {}
    for i, x in enumerate(p.ev):
        if x[0] == 'lock':
            held[(x[1], x[2])] = i
        elif x[0] == 'unlock':
            c = x[3] if len(x) > 3 else None
            old = mk('locked', x[1], x[2])
            if c is None or c == old:
                continue
            mt = x[1]
            if mt.op == 'fld' and mt.a[2] == sp.kids and mt.a[0] != p.node:
                reg.append((i, x, c))
            elif mt.op == 'fld' and mt.a[2] == sp.kids:
                pass
            elif mt.op == 'agg' and mt.a[0] == 'mutex':
                init = mt.a[2][1]
                if init == NONE:
                    if is_some(c):
                        (errs if not childref(c.a[2][0]) else cap).append((i, x, c.a[2][0]))
        elif x[0] == 'atomic':
            if x[1] in ('fetch_sub', 'fetch_add', 'swap', 'compare_exchange') or x[1] == 'store':
                if x[2].op == 'fld' and x[2].a[2] == sp.deps:
                    dec.append((i, x))
                else:
                    stores.append((i, x))
    return reg, dec, p.spawn, cap, errs, stores

def signalled(p):
    """The path records an error, or found one recorded by another worker."""
    reg, dec, spn, cap, errs, stores = effects(p)
    if errs:
        return True
    for x in p.ev:
        if x[0] == 'lock' and x[1].op == 'agg' and x[1].a[0] == 'mutex' and x[1].a[2][1] == NONE:
            l = mk('locked', x[1], x[2])
            v = p.facts.v.get(l)
            if v == 1 or isinstance(v, frozenset) and 0 in v:
                return True
    return False

def is_some(t):
    return t.op == 'agg' and t.a[0] == 'core::option::Option' and t.a[1] == 1
def childref(t):
    return t.op == 'agg' and str(t.a[0]).endswith('::ChildRef')

def worker_failures(ctx, w):
    """A failed step stops its chunk: nothing is handed on to the parent and the failure is signalled or leaves the root missing."""
    for p in w.paths:
        if p.kind != 'worker':
            continue
        fs = [x for x in p.fails if x[1] != 'poison']
        if not fs:
            continue
        i = p.ev.index(fs[0])
        reg, dec, spn, cap, errs, stores = effects(p)
        after = [x for x in reg + dec + cap if x[0] > i] + [x for x in spn if p.ev.index(x) > i]
        sig = [x for x in stores if x[0] > i and x[1][1] in ('store', 'swap', 'fetch_or', 'fetch_add')]
        main_checks = any(x[0] == 'atomic' and x[1] == 'load' for o in w.ok for x in o.ev)
        judge(ctx, 'a failed step stops the chunk', not after or (sig and main_checks), '%s: %s failure ignored by the worker' % (w.name, fs[0][1]),
              'a worker goes on to hand its chunk to the parent after %s failed' % fs[0][1], ptext(p))

def ptext(p):
    class O: pass
    o = O(); o.ret, o.facts, o.ev = p.ret if p.ret is not None else UNIT, p.facts, tuple(p.raw)
    return path_text(o)

def root_required(ctx, w):
    """Ok needs the root reference: returned trailer fields come from a captured reference that exists only when the root was written."""
    for o in w.ok:
        tr = [x for x in walk(o.ev) if w.is_trailer(x)]
        for x in tr:
            src = root_source(x[3])
            ctx.ob('Ok only with the root written')
            if src is None:
                ctx.undec('%s: trailer root reference %s' % (w.name, short(x[3])))

def c01(ctx):
    for w in writers(ctx):
        ctx.count('entry points')
        for o in w.ok:
            ctx.ob('no successful path contains a failed step')
            fs = [x for x in walk(o.ev) if x[0] == 'fail' and x[1] != 'poison']
            if fs:
                ctx.violate('%s: Ok after a failed %s' % (w.name, fs[0][1]), '%s can return Ok after %s failed' % (w.name, short(fs[0][2])), path_text(o))
        if not w.ok:
            ctx.violate('%s: never succeeds' % w.name, '%s has no successful path' % w.name)
        flush_last(ctx, w)
        worker_failures(ctx, w)
        if not w.paths:
            ctx.undec('%s: chunk processing not recognised' % w.name)
        for p in w.paths:
            if p.kind == 'serial' and p.ret is None:
                ctx.ob('the serial executor stops at the first failure')
        once(ctx, w)
    for b in job_rows(ctx):
        u = seam_unit(ctx, b)
        if u is not None:
            fail_is_err(ctx, u, rowname(ctx, b))
    ctx.floor('entry points', 9)
    return ('Every path of the nine save/write entry points (and of every job, shallow encoder and compressor behind the trait seams) is followed over the compiled MIR: '
            'no path that contains a failed encode, compress, write or flush returns Ok; the last sink operation of every Ok path is a flush of the writer that received the data; '
            'a worker that failed hands nothing on; chunks are executed and written exactly once per visited node.',
            ['std, rayon, bincode and lz4_flex behave as their documented contracts', 'mutexes are not poisoned (no worker panics)'])

def done(p):
    """Path that finished its chunk without failure."""
    return not p.fails and not p.abort and not (p.kind == 'serial' and p.ret is not None) and not infeasible(p) and bool(p.exe) and bool(p.writes) and not signalled(p)

def once(ctx, w):
    """Completed chunk paths execute their job once, compress it once and write once (as one contiguous run)."""
    for p in w.paths:
        if p.fails or p.abort or (p.kind == 'serial' and p.ret is not None) or infeasible(p):
            continue
        if p.kind == 'worker' and not p.exe and not p.writes and p.ret is not None:
            reg, dec, spn, cap, errs, stores = effects(p)
            if signalled(p):
                continue      # refused with an error: C06
        ok = len(p.exe) == 1 and len([x for x in p.writes]) >= 1
        judge(ctx, 'every chunk is executed and written', ok, '%s: chunk not %s' % (w.name, 'executed once' if len(p.exe) != 1 else 'written'),
              'a %s path finishes a chunk with %d executions and %d writes' % (p.kind, len(p.exe), len(p.writes)), ptext(p))

def infeasible(p):
    """Paths excluded by the numeric limits of ids: more than u32::MAX children."""
    sp = shape(p.w.ctx)
    for d in p.facts.q:
        c, m = lparts(d)
        if c >= (1 << 32) - 1 and len(m) == 1:
            k, v = next(iter(m.items()))
            if v < 0 and k.op == 'len' and any(q.op == 'locked' and q.a[0].op == 'fld' and q.a[0].a[2] == sp.kids for q in subterms(k)):
                return True
    return False

# ---------------------------------------------------------------- C02
def root_source(content):
    """(reference term whose .offset/.length fill the trailer) or None."""
    ps = pieces(content)
    les = [p for p in ps if p.op == 'le' and p.a[0] == 8]
    if len(les) < 2:
        return None
    off, ln = les[0].a[1], les[1].a[1]
    if off.op == 'fld' and ln.op == 'fld' and off.a[2] == 'offset' and ln.a[2] == 'length' and off.a[0] == ln.a[0]:
        return off.a[0]
    return None

def c02(ctx):
    for w in writers(ctx):
        ctx.count('entry points')
        for o in w.u.outs:
            ev = list(o.ev)
            tr = [i for i, x in enumerate(ev) if w.is_trailer(x)]
            trl = [x for i, x in enumerate(ev) if x[0] == 'loop' for y in walk([x]) if w.is_trailer(y)]
            if trl:
                ctx.undec('%s: trailer inside a loop' % w.name)
            if is_ok(o.ret):
                judge(ctx, 'exactly one trailer', len(tr) == 1, '%s: %d trailers' % (w.name, len(tr)), '%s writes %d trailers on a successful path' % (w.name, len(tr)), path_text(o), [x[3] for x in ev if x[0] == 'sink'])
            for i in tr:
                ctx.ob('no trailer after a failed step')
                bad = [x for x in walk(ev[:i]) if x[0] == 'fail' and x[1] != 'poison']
                if bad:
                    ctx.violate('%s: trailer after a failed %s' % (w.name, bad[0][1]), '%s writes the trailer although %s failed before' % (w.name, bad[0][1]), path_text(o))
                later = [x for x in walk(ev[i + 1:]) if x[0] == 'sink' and x[1] != 'flush']
                judge(ctx, 'nothing is written after the trailer', not later, '%s: data after the trailer' % w.name, '%s writes more data after the trailer' % w.name, path_text(o))
                late = [x for x in ev[i + 1:] if x[0] in ('scope_begin', 'scope_end', 'spawn') or (x[0] == 'loop' and any(y[0] in ('execute', 'spawn') for y in walk([x])))]
                judge(ctx, 'the trailer follows all chunks', not late, '%s: trailer before the chunks' % w.name, '%s writes the trailer before all chunks are written' % w.name, path_text(o))
                check_root(ctx, w, o, ev[i])
    ctx.floor('entry points', 9)
    return ('On every path of the nine entry points: exactly one trailer write when Ok, it is the last write and follows the executor, no trailer after any failed step, '
            'and its root offset/length are the reference recorded for the node without a parent: position before the write and the length of the bytes written.',
            ['only one node of the graph has no parent (checked in C03 for the visitors)', 'mutexes are not poisoned'])

def written_ref(p):
    """Expected (offset, length) of the chunk written on this path, or None."""
    if not p.writes:
        return None
    x = p.writes[0]
    lk = next((q for q in subterms(x[2]) if q.op == 'locked'), None)
    if lk is None:
        return None
    ups = [y for y in p.ev if y[0] == 'unlock' and mk('locked', y[1], y[2]) == lk]
    if not ups:
        return None
    c = ups[-1][3]
    n = ZERO
    for y in p.writes:
        n = add(n, slen(y[3]))
    if c.op == 'upd' and c.a[0] == lk and len(c.a[1]) == 1:
        (var, f), v = c.a[1][0]
        return mk('fld', lk, var, f), n, v, (var, f), lk
    return None

def check_root(ctx, w, o, x):
    src = root_source(x[3])
    if src is None:
        ps = pieces(x[3])
        les = [p.a[1] for p in ps if p.op == 'le' and p.a[0] == 8]
        judge(ctx, 'the trailer names the root', False, '%s: trailer root' % w.name, '%s: trailer offset and length are %s' % (w.name, short(tuple(les))), path_text(o), [x[3]])
        return
    # src = payload of an Option captured at the root
    opt = src.a[0] if src.op == 'fld' and src.a[1] == 1 and src.a[2] == 0 else None
    if opt is None:
        ctx.undec('%s: root reference %s' % (w.name, short(src)))
        return
    caps = []
    if opt.op == 'locked':
        mt = opt.a[0]
        ctx.ob('the trailer needs a captured root')
        if not o.facts.implies(mk('is', opt, 1)):
            ctx.violate('%s: trailer without a root' % w.name, '%s writes a trailer although no root was captured' % w.name, path_text(o))
        if not (mt.op == 'agg' and mt.a[0] == 'mutex' and mt.a[2][1] == NONE):
            ctx.undec('%s: root cell %s' % (w.name, short(mt)))
        mt = subst(mt, w.G)
        for p in w.paths:
            for i, y, v in effects(p)[3]:
                if subst(y[1], w.G) == mt:
                    caps.append((p, v, i))
            if p.kind == 'worker' and not p.fails and p.exe and not infeasible(p):
                rootp = p.facts.v.get(mk('fld', p.node, -1, shape(ctx).parent)) == 0
                hit = any(q is p for q, _, _ in caps)
                if rootp:
                    judge(ctx, 'the root is captured', hit, '%s: root not captured' % w.name, 'the worker finishes the root chunk without recording its reference', ptext(p))
    elif opt.op == 'phi':
        for p_entry in w.u.e.loops.values():
            ph = p_entry['phis'].get(opt)
            if ph:
                if ph[0] != NONE:
                    ctx.undec('%s: root initial %s' % (w.name, short(ph[0])))
                for facts, v in ph[1]:
                    if v == opt:
                        continue
                    if is_some(v):
                        caps.append((facts, v.a[2][0], None))
                    else:
                        ctx.violate('%s: root reference lost' % w.name, 'the serial executor overwrites the root reference with %s' % short(v))
    else:
        ctx.undec('%s: root reference held in %s' % (w.name, short(opt)))
        return
    if not caps:
        ctx.violate('%s: root never captured' % w.name, '%s: no path records the root reference' % w.name)
    for p, v, i in caps:
        if isinstance(p, Path):
            facts, node = p.facts, p.node
            fl = [x for x in p.ev[:i] if x[0] == 'fail']
            if fl:
                ctx.violate('%s: root captured after failure' % w.name, 'root reference recorded after %s failed' % fl[0][1], ptext(p))
            wr = written_ref(p)
        else:
            facts = p
            node, wr = serial_node(w), None
        par = mk('fld', node, -1, shape(ctx).parent) if node is not None else None
        ctx.ob('only the parentless chunk is the root')
        pv = facts.v.get(par) if par is not None else None
        if pv != 0:
            if par is None:
                ctx.undec('%s: node of the root capture' % w.name)
            else:
                ctx.violate('%s: root captured for a child' % w.name, 'the reference of a chunk that has a parent can be recorded as root', ptext(p) if isinstance(p, Path) else '\n'.join(short(c) for c in facts.conds()))
        if childref(v):
            off, ln = terms._fld(v, -1, 'offset'), terms._fld(v, -1, 'length')
            check_ref(ctx, w, 'root', off, ln, p if isinstance(p, Path) else None, facts)
        else:
            ctx.undec('%s: captured root %s' % (w.name, short(v)))

def serial_node(w):
    for p in w.paths:
        if p.kind == 'serial' and p.ret is None and p.node is not None:
            return p.node
    return None

def check_ref(ctx, w, what, off, ln, p, facts):
    """(off, ln) is the position and size of the chunk written on path p."""
    if p is not None:
        wr = written_ref(p)
        if wr is None:
            ctx.undec('%s: position of the chunk' % w.name)
            return
        judge(ctx, 'references carry the position before the write', off == wr[0], '%s: %s offset' % (w.name, what), 'the %s reference carries offset %s, the chunk starts at %s' % (what, short(off), short(wr[0])), ptext(p), [off])
        judge(ctx, 'references carry the bytes written', facts.implies(eqz(sub_(ln, wr[1]))) is True, '%s: %s length' % (w.name, what), 'the %s reference carries length %s, %s bytes were written' % (what, short(ln), short(wr[1])), ptext(p), [ln])
        return
    # serial: the phi value must match one of the completed iterations
    c = []
    for q in w.paths:
        if q.kind == 'serial' and q.ret is None:
            wr = written_ref(q)
            if wr:
                c.append((wr[0], wr[1]))
    ctx.ob('references carry the position before the write')
    if not any(off == a and ln == b for a, b in c):
        if resolved(off, ln) and c and resolved(*[x for ab in c for x in ab]):
            ctx.violate('%s: %s reference' % (w.name, what), 'the %s reference is (%s, %s), which is no chunk written' % (what, short(off), short(ln)))
        else:
            ctx.undec('%s: %s reference (%s, %s)' % (w.name, what, short(off), short(ln)))

# ---------------------------------------------------------------- C03
def same_rep(a, b):
    """Equal up to the name of the bound index."""
    if a is b:
        return True
    if a.op != 'rep' or b.op != 'rep' or a.a[0] != b.a[0] or len(a.a[2]) != len(b.a[2]):
        return False
    k = mk('k', 'cmp')
    def inst(r):
        return {(frozenset(subst(c, {r.a[1]: k}) for c in cs), tuple(subst(q, {r.a[1]: k}) for q in ps)) for cs, ps in r.a[2]}
    x, y = inst(a), inst(b)
    if x == y:
        return True
    return len(x) == len(y) == 1 and same_pieces(next(iter(x))[1], next(iter(y))[1])
def same_pieces(a, b):
    return len(a) == len(b) and all(x == y or same_rep(x, y) for x, y in zip(a, b))
def same_seq(a, b):
    return a == b or a.op == 'seq' and b.op == 'seq' and same_pieces(pieces(a), pieces(b))
def rep1(r):
    return r[0] if isinstance(r, tuple) else r

def kid_elem(cc, k):
    return terms._fld(elem(cc, k), 1, 0)

def expected_tables(w, p):
    """(child table bytes, execute argument) for the children recorded under the node, in slot order."""
    cc = w.kids(p)
    k = mk('k', 'exp')
    n = slen(cc)
    el = kid_elem(cc, k)
    tab = rep1(mkrep(n, k, (((), (mk('le', 8, mk('fld', el, -1, 'offset')), mk('le', 8, mk('fld', el, -1, 'length')))),)))
    arg = mk('seq', (rep1(mkrep(n, k, (((), (mk('b', el),)),))),))
    return cc, tab, arg

def kids_of_path(ctx, w, p):
    """Own child list of the node: all of it, in slot order, both handed to the job and written as the table."""
    cc, tab, arg = expected_tables(w, p)
    sp = shape(ctx)
    lk = [t for x in p.ev for t in x[1:] if isinstance(t, Tm) for q in subterms(t) if q.op == 'locked' and q.a[0] == mk('fld', p.node, -1, sp.kids)]
    a = w.norm(p.exe[0][2][0], p)
    a = a.a[0] if a.op == 'rv' else a
    f = normfacts(w, p)
    empty = f.implies(eqz(slen(cc))) is True
    okarg = same_seq(a, arg) or a == cc or (empty and f.implies(eqz(slen(a))) is True)
    judge(ctx, 'the job gets all children in slot order', okarg, '%s: children given to the job' % w.name, 'the job of a chunk is given %s, its children are %s' % (short(a), short(arg)), ptext(p), [a])
    ps = [q for x in p.writes for q in pieces(w.norm(x[3], p))]
    body, table, count, meta = split_chunk(ps)
    if body is None:
        ctx.undec('%s: chunk content %s' % (w.name, short(tuple(ps))))
        return None
    if table is None:
        judge(ctx, 'the child table is exact', empty, '%s: child table missing' % w.name, 'a chunk with children can be written without its child table', ptext(p), [cc])
    else:
        judge(ctx, 'the child table is exact', same_rep(table, tab), '%s: child table' % w.name, 'the child table is %s, expected %s' % (short(table), short(tab)), ptext(p), [table])
        n = count
        judge(ctx, 'the child table is exact', f.implies(eqz(sub_(n, slen(cc)))) is True, '%s: child count' % w.name, 'the recorded child count is %s, the chunk has %s children' % (short(n), short(slen(cc))), ptext(p), [n])
    return body, table, count, meta, empty

def normfacts(w, p):
    if not hasattr(p, 'nf'):
        f = domain.Facts()
        for c in p.facts.conds():
            f.assume(w.norm(c, p))
        p.nf = f
    return p.nf

def split_chunk(ps):
    """payload pieces, table rep, count, meta of the written bytes."""
    if not ps:
        return None, None, None, None
    meta = ps[-1]
    if meta.op != 'b':
        return None, None, None, None
    rest = list(ps[:-1])
    if len(rest) >= 2 and rest[-1].op == 'le' and rest[-1].a[0] == 4 and rest[-2].op == 'rep':
        return tuple(rest[:-2]), rest[-2], rest[-1].a[1], meta.a[0]
    if any(q.op == 'rep' for q in rest) or any(q.op == 'le' for q in rest):
        # a table in some other form
        i = next(i for i, q in enumerate(rest) if q.op in ('rep', 'le', 'be'))
        if len(rest) - i >= 2:
            return tuple(rest[:i]), mk('seq', tuple(rest[i:-1])), cnt_of(rest[-1]), meta.a[0]
        return tuple(rest[:i]), mk('seq', tuple(rest[i:])), mk('unknown', 'count'), meta.a[0]
    return tuple(rest), None, None, meta.a[0]
def cnt_of(q):
    return q.a[1] if q.op in ('le', 'be') else mk('unknown', 'count')

def strong(*ts):
    """resolved, and no atomics either (their values depend on other threads)."""
    return resolved(*ts) and not any(any(s.op == 'ret' for s in subterms(t)) for t in ts if isinstance(t, Tm))

def handover(ctx, w, p):
    """Registration under the parent, in the reserved slot, before the dependency is released; scheduling by the last child."""
    sp = shape(ctx)
    reg, dec, spn, cap, errs, stores = effects(p)
    par = mk('fld', p.node, -1, sp.parent)
    pv = p.facts.v.get(par)
    if pv == 0:
        judge(ctx, 'a root chunk notifies nobody', not reg and not dec and not spn, '%s: root notifies a parent' % w.name, 'the chunk without a parent registers with a parent', ptext(p))
        return
    if pv != 1:
        judge(ctx, 'every child is registered', bool(reg), '%s: parent not consulted' % w.name, 'a finished chunk is not handed to its parent', ptext(p), [par])
        if not reg:
            return
    if not reg:
        judge(ctx, 'every child is registered', False, '%s: child not registered' % w.name, 'a finished chunk is not recorded in its parent', ptext(p))
        return
    ctx.ob('every child is registered')
    if len(reg) != 1:
        judge(ctx, 'registered once', False, '%s: child registered %d times' % (w.name, len(reg)), 'a finished chunk is recorded %d times' % len(reg), ptext(p))
    i, x, c = reg[0]
    old = mk('locked', x[1], x[2])
    pn = x[1].a[0]
    idx = pn.a[1] if pn.op == 'elem' else None
    want = mk('fld', par, 1, 0)
    okp = pn.op == 'elem' and any(q == want for q in subterms(idx)) and not isint(idx) and idx.op == 'fld'
    judge(ctx, 'registered under its own parent', okp, '%s: registered under another node' % w.name, 'a chunk is recorded under %s instead of its parent' % short(pn), ptext(p), [pn])
    slot = mk('fld', mk('fld', p.node, -1, sp.slot), 1, 0)
    slots = [q for q in subterms(c) if q.op == 'ixupd']
    if c.op == 'ixupd' and c.a[0] == old:
        judge(ctx, 'registered in its own slot', c.a[1] == slot, '%s: registered in another slot' % w.name, 'a chunk is recorded in slot %s instead of its reserved slot' % short(c.a[1]), ptext(p), [c.a[1]])
        v = c.a[2]
        if is_some(v) and childref(v.a[2][0]):
            r = v.a[2][0]
            check_ref(ctx, w, 'child', terms._fld(r, -1, 'offset'), terms._fld(r, -1, 'length'), p, p.facts)
        else:
            judge(ctx, 'the recorded reference is complete', False, '%s: recorded reference' % w.name, 'the parent is given %s' % short(v), ptext(p), [v])
    else:
        judge(ctx, 'registered in its own slot', False, '%s: registered in another slot' % w.name, 'the child table of the parent becomes %s' % short(c), ptext(p), [c])
    wi = p.ev.index(p.writes[-1])
    judge(ctx, 'registered after it was written', i > wi, '%s: registered before written' % w.name, 'a chunk is recorded in its parent before it is written', ptext(p))
    if p.kind == 'serial':
        return
    d = [y for y in dec if y[1][2].a[0] == pn]
    judge(ctx, 'one dependency released', len(d) == 1 and len(dec) == 1, '%s: %d dependencies released' % (w.name, len(dec)), 'a finished chunk releases %d dependencies' % len(dec), ptext(p))
    if len(d) != 1:
        return
    j, y = d[0]
    judge(ctx, 'the result is stored before the dependency is released', j > i, '%s: dependency released early' % w.name, 'the dependency of the parent is released before the child is recorded', ptext(p))
    if y[1] != 'fetch_sub' or not isint(y[3][0]) or y[3][0].a[0] != 1:
        if y[1] in ('fetch_sub', 'fetch_add') and isint(y[3][0]):
            judge(ctx, 'one dependency released', y[1] == 'fetch_add' and (y[3][0].a[0] + 1) % (1 << 64) == 0, '%s: dependency count' % w.name, 'a finished chunk changes the dependency count by %s %s' % (y[1], short(y[3][0])), ptext(p))
        else:
            judge(ctx, 'one dependency released', False, '%s: dependency update' % w.name, 'the dependency count is updated with %s, which loses concurrent updates' % y[1], ptext(p))
        return
    ret = y[4]
    last = p.facts.implies(eqz(sub_(ret, ONE)))
    if spn:
        judge(ctx, 'the last child schedules the parent', last is True, '%s: parent scheduled early' % w.name, 'a worker schedules the parent without having released its last dependency', ptext(p))
        judge(ctx, 'the last child schedules the parent', len(spn) == 1, '%s: parent scheduled %d times' % (w.name, len(spn)), 'the last child schedules the parent %d times' % len(spn), ptext(p))
        judge(ctx, 'the parent is scheduled after the release', p.ev.index(spn[0]) > j, '%s: parent scheduled before the release' % w.name, 'the parent is scheduled before the dependency count is updated', ptext(p))
        ui = w.node_upvar(spn[0][2])
        n = spn[0][2].a[2][ui] if ui is not None else None
        if n is None:
            ctx.undec('%s: spawned node' % w.name)
        else:
            n = n.a[0] if n.op == 'rv' else mk('*', n)
            judge(ctx, 'the last child schedules the parent', n == pn, '%s: schedules another node' % w.name, 'the last child schedules %s instead of its parent' % short(n), ptext(p), [n])
    else:
        judge(ctx, 'the last child schedules the parent', last is False, '%s: parent not scheduled' % w.name, 'a worker that released the last dependency may leave the parent unscheduled', ptext(p))

def leaves(ctx, w):
    """Initially the nodes without children are started, each once, decided before any worker runs."""
    sp = shape(ctx)
    for o in w.ok:
        ev = list(o.ev)
        sb = next((i for i, x in enumerate(ev) if x[0] == 'scope_begin'), None)
        loops = [x for x in ev if x[0] == 'loop' and any(y[0] == 'spawn' for y in walk([x]))]
        direct = [x for x in ev if x[0] == 'spawn']
        if not loops and not direct:
            # no leaves at all: only when the graph is empty
            continue
        for x in loops:
            for c, e in x[3]:
                es = list(walk(e))
                ls = [y for y in es if y[0] == 'atomic' and y[1] == 'load' and y[2].op == 'fld' and y[2].a[2] == sp.deps]
                s = [y for y in es if y[0] == 'spawn']
                judge(ctx, 'leaves are chosen before any worker runs', not ls, '%s: leaves chosen while workers run' % w.name,
                      'whether a node starts as a leaf is decided after workers were started, so a node finished by them is started twice', path_text(o))
                judge(ctx, 'each leaf is started once', len(s) == 1 or ls, '%s: leaf started %d times' % (w.name, len(s)), 'a leaf is started %d times' % len(s), path_text(o))
                for y in s:
                    ui = w.node_upvar(y[2])
                    if ui is None:
                        continue
                    n = y[2].a[2][ui]
                    check_leaf(ctx, w, o, x, n, ls)

def check_leaf(ctx, w, o, loop, n, ls):
    sp = shape(ctx)
    k = w.u.e.loops[loop[1]]['k']
    n = subst(n, w.G)
    if n.op == 'elem':
        src, ix = n.a
        judge(ctx, 'every leaf is started', loop[2] == slen(unsub(src, w)) or subst(loop[2], w.G) == slen(src), '%s: leaves left out' % w.name, 'only %s of %s leaves are started' % (short(loop[2]), short(slen(src))), path_text(o), [loop[2]])
        src = src.a[0] if src.op == 'rv' else src
        reps = [p for p in pieces(src) if p.op == 'rep']
        if src.op == 'seq' and len(reps) == 1 and len(pieces(src)) == 1:
            r = reps[0]
            count, bvv, alts = r.a
            nodes = None
            for conds, ps in alts:
                f = domain.Facts()
                for c in conds:
                    f.assume(c)
                lds = [q for c in conds for q in subterms(c) if q.op == 'ret' and q.a[0] == 'atomic_load']
                if not lds:
                    ctx.undec('%s: leaf choice' % w.name)
                    return
                ld = lds[0]
                addr = ld.a[1][0]
                z = f.implies(eqz(ld))
                if ps:
                    judge(ctx, 'leaves are the nodes without children', z is True and len(ps) == 1 and addr.op == 'fld' and addr.a[2] == sp.deps and ps[0].a[0] in (mk('rv', addr.a[0]), addr.a[0]),
                          '%s: leaf choice' % w.name, 'a node is started although it may still have unwritten children', path_text(o), [c for c in conds])
                    nodes = addr.a[0].a[0] if addr.op == 'fld' and addr.a[0].op == 'elem' else None
                else:
                    judge(ctx, 'leaves are the nodes without children', z is False, '%s: leaf left out' % w.name, 'a node without children may never be started', path_text(o), [c for c in conds])
            if nodes is not None:
                judge(ctx, 'leaves are looked for among all nodes', count == slen(nodes), '%s: nodes left out' % w.name, 'leaves are looked for among %s of %s nodes' % (short(count), short(slen(nodes))), path_text(o), [count])
            return
    if ls:
        return
    ctx.undec('%s: leaves %s' % (w.name, short(n)))

def unsub(t, w):
    return t

def serial_order(ctx, w):
    """Nodes are processed from the last created to the first: every node, children before parents."""
    for lid, x in w.loops.items():
        k = w.u.e.loops[lid]['k']
        for p in w.paths:
            if p.kind != 'serial' or p.owner != lid or p.ret is not None or p.node is None:
                continue
            n = p.node
            if n.op != 'elem':
                ctx.undec('%s: node order %s' % (w.name, short(n)))
                continue
            nodes, ix = n.a
            want = sub_(sub_(slen(nodes), ONE), k)
            c = w.u.e.loops[lid]
            judge(ctx, 'children are processed before parents', ix == want, '%s: node order' % w.name,
                  'the %s-th processed node is number %s, not %s' % ('k', short(ix), short(want)), ptext(p), [ix])
            judge(ctx, 'every node is processed', x[2] == slen(nodes), '%s: nodes left out' % w.name, '%s of %s nodes are processed' % (short(x[2]), short(slen(nodes))), ptext(p), [x[2]])
            for cnd, e in x[3]:
                ok = any(y[0] == 'execute' for y in walk(e))
                judge(ctx, 'every node is processed', ok, '%s: node skipped' % w.name, 'the serial executor can skip a node', '\n'.join(short(q) for q in cnd))

def graph_units(ctx):
    """The three operations the visitors use on the graph."""
    sp = shape(ctx)
    got = {'add_node': 0, 'link_parent_child': 0, 'replace_job': 0}
    for m in got:
        rows = [b for b in ctx.fx.F.values() if b['m'] == m and 'TaskGraph' in b['p']]
        if not rows:
            raise Anchor('TaskGraph::%s' % m)
        got[m] = 1
        u = ctx.unit(rows[0], ())
        if u is None:
            continue
        g = u.row['locs'][1][1] or 'a0'
        G = mk('*', mk('p', g))
        args = [mk('p', l[1] or 'a%d' % i) for i, l in enumerate(u.row['locs'][1:u.row['argc'] + 1])]
        for o in u.outs:
            after = o.st.m.get(('S', mk('p', g)))
            after = next((v for r, v in o.st.m.items() if r[0] == 'S' and r[1] == mk('p', g)), None)
            if m == 'add_node':
                add_node_rule(ctx, sp, u, o, G, after, args)
            elif m == 'link_parent_child':
                link_rule(ctx, sp, u, o, G, after, args)

def nodes_field(ctx):
    sp = shape(ctx)
    for r in ctx.fx.T.values():
        if r.get('k') == 'adt' and r.get('crate') == 'parcode' and r['def'].endswith('::TaskGraph') and r.get('vs'):
            for n, t in r['vs'][0]['f']:
                if sp.def_ in ctx.fx.T[t]['s']:
                    return n
    raise Anchor('node list of TaskGraph')

def add_node_rule(ctx, sp, u, o, G, after, args):
    nf = nodes_field(ctx)
    nodes = mk('fld', G, -1, nf)
    if after is None:
        ctx.violate('add_node: not stored', 'add_node leaves the graph unchanged', path_text(o))
        return
    new = terms._fld(after, -1, nf)
    ps = pieces(new)
    ok = len(ps) == 2 and ps[0] == mk('all', nodes) and ps[1].op == 'b'
    judge(ctx, 'add_node appends one node', ok, 'add_node: node list', 'add_node turns the node list into %s' % short(new), path_text(o), [new])
    if not ok:
        return
    n = ps[1].a[0]
    idt = o.ret
    while idt.op == 'agg' and len(idt.a[2]) == 1:
        idt = idt.a[2][0]
    ok = o.facts.implies(eqz(sub_(idt, slen(nodes)))) is True or (isint(idt) and idt.a[0] == 0xffffffff)
    judge(ctx, 'a node id is its index', ok, 'add_node: id', 'add_node returns id %s for the node at index %s' % (short(idt), short(slen(nodes))), path_text(o), [idt])
    par, deps, kidv, job = (terms._fld(n, -1, f) for f in (sp.parent, sp.deps, sp.kids, sp.job))
    judge(ctx, 'a new node has no parent and no children', par == NONE and deps.op == 'agg' and deps.a[2][1] == ZERO and kidv.op == 'agg' and slen(kidv.a[2][1]) == ZERO and job in args,
          'add_node: initial state', 'a new node starts as parent %s, dependencies %s, children %s' % (short(par), short(deps), short(kidv)), path_text(o), [par, deps, kidv])

def link_rule(ctx, sp, u, o, G, after, args):
    nf = nodes_field(ctx)
    nodes = mk('fld', G, -1, nf)
    def idx(a):
        return [q for q in (a, mk('fld', a, -1, 0), mk('fld', a, 0, 0))]
    P, C = args[1], args[2]
    adds = [x for x in o.ev if x[0] == 'atomic' and x[1] not in ('load',)]
    ok = len(adds) == 1 and adds[0][1] == 'fetch_add' and adds[0][3][0] == ONE and adds[0][2].op == 'fld' and adds[0][2].a[2] == sp.deps
    judge(ctx, 'linking adds one dependency', ok, 'link_parent_child: dependency count', 'linking a child updates the dependency count with %s' % short(tuple((x[1], x[3]) for x in adds)), path_text(o))
    if ok:
        pn = adds[0][2].a[0]
        judge(ctx, 'linking adds one dependency', pn.op == 'elem' and contains(pn.a[1], P), 'link_parent_child: wrong node counted', 'linking counts the dependency on %s' % short(pn), path_text(o), [pn])
    ul = [x for x in o.ev if x[0] == 'unlock' and x[1].op == 'fld' and x[1].a[2] == sp.kids]
    slot = None
    if len(ul) == 1:
        x = ul[0]
        old = mk('locked', x[1], x[2])
        ps = pieces(x[3])
        judge(ctx, 'linking reserves the next slot', len(ps) == 2 and ps[0] == mk('all', old) and ps[1].op == 'b' and ps[1].a[0] == NONE and contains(x[1], P), 'link_parent_child: slot', 'linking turns the child table of %s into %s' % (short(x[1]), short(x[3])), path_text(o), [x[3]])
        slot = slen(old)
    else:
        judge(ctx, 'linking reserves the next slot', False, 'link_parent_child: slot', 'linking updates the child table %d times' % len(ul), path_text(o))
    if after is None:
        ctx.violate('link_parent_child: child unchanged', 'linking does not record the parent in the child', path_text(o))
        return
    new = terms._fld(after, -1, nf)
    if new.op == 'ixupd' and new.a[0] == nodes:
        c = new.a[2]
        par, sl = terms._fld(c, -1, sp.parent), terms._fld(c, -1, sp.slot)
        judge(ctx, 'the child knows its parent and slot', contains(new.a[1], C) and is_some(par) and par.a[2][0] == P and is_some(sl) and sl.a[2][0] == slot, 'link_parent_child: child', 'linking sets parent %s and slot %s on node %s' % (short(par), short(sl), short(new.a[1])), path_text(o), [par, sl])
    else:
        judge(ctx, 'the child knows its parent and slot', False, 'link_parent_child: child', 'linking turns the node list into %s' % short(new), path_text(o), [new])

def c03(ctx):
    for w in writers(ctx, ('opt_write', 'opt_write_sync', 'write', 'write_sync')):
        ctx.count('entry points')
        for p in w.paths:
            if not done(p):
                continue
            ctx.count('chunk paths')
            kids_of_path(ctx, w, p)
            handover(ctx, w, p)
        once(ctx, w)
        if w.parallel:
            leaves(ctx, w)
        if w.serial:
            serial_order(ctx, w)
    graph_units(ctx)
    import rules_visit
    rules_visit.linking(ctx)
    ctx.floor('chunk paths', 20)
    return ('Every worker path and every serial iteration that finishes a chunk: the job and the child table get exactly the recorded children in slot order; the reference is stored in the reserved slot of the real parent '
            'before the dependency is released by an atomic decrement; the parent is scheduled exactly by the decrement that observed the last dependency; leaves are chosen before workers start; the serial executor walks all nodes from last to first; '
            'add_node/link_parent_child keep ids, slots and counts; visitors link every new chunk to an earlier created parent.',
            ['rayon runs every spawned task once and joins the scope', 'mutexes are not poisoned', 'fewer than 2^32 chunks'])

# ---------------------------------------------------------------- C04
def sections(p):
    """[(lock index, unlock index, locked term, new content)] of the critical sections of a path."""
    out, open_ = [], {}
    for i, x in enumerate(p.ev):
        if x[0] == 'lock':
            open_[(x[1], x[2])] = i
        elif x[0] == 'unlock' and (x[1], x[2]) in open_:
            out.append((open_.pop((x[1], x[2])), i, mk('locked', x[1], x[2]), x[3]))
    for (m, s), i in open_.items():
        out.append((i, len(p.ev), mk('locked', m, s), None))
    return out

def lock_of(t):
    return [q for q in subterms(t) if q.op == 'locked']

def atomic_writes(ctx, w):
    for p in w.paths:
        if not p.writes or infeasible(p):
            continue
        ctx.count('chunk writes', len(p.writes))
        secs = sections(p)
        first = p.ev.index(p.writes[0])
        ctx.ob('a chunk is written inside one critical section')
        lks = set()
        for x in p.writes:
            ls = lock_of(x[2])
            i = p.ev.index(x)
            if not ls:
                if p.kind == 'worker':
                    judge(ctx, 'a chunk is written inside one critical section', False, '%s: unlocked write' % w.name, 'a worker writes to the sink without holding the writer lock', ptext(p), [x[2]])
                continue
            sec = [s for s in secs if s[2] == ls[0]]
            if not sec or not (sec[0][0] < i < sec[0][1]):
                judge(ctx, 'a chunk is written inside one critical section', False, '%s: write outside the lock' % w.name, 'a chunk is written after the writer lock was released', ptext(p), [x[2]])
            lks.add(ls[0])
        if len(lks) > 1:
            judge(ctx, 'a chunk is written inside one critical section', False, '%s: chunk written in pieces' % w.name, 'one chunk is written in %d critical sections, so other chunks can come between' % len(lks), ptext(p))
            continue
        if len(lks) != 1:
            continue
        lk = next(iter(lks))
        sec = [s for s in secs if s[2] == lk]
        if not sec:
            continue
        new = sec[0][3]
        total = ZERO
        for x in p.writes:
            total = add(total, slen(x[3]))
        failed = any(x[0] == 'fail' and x[1] == 'io' for x in p.ev[first:sec[0][1]])
        f = offset_field(ctx, w)
        if f is None:
            ctx.undec('%s: position counter' % w.name)
            continue
        after = terms._fld(new, *f) if new is not None else mk('fld', lk, *f)
        d = sub_(after, mk('fld', lk, *f))
        if failed:
            judge(ctx, 'a failed write does not advance the position', p.facts.implies(eqz(d)) is True, '%s: position advances on a failed write' % w.name, 'after a failed write the position becomes %s' % short(after), ptext(p), [after])
        else:
            judge(ctx, 'the position advances by exactly the bytes written', p.facts.implies(eqz(sub_(d, total))) is True, '%s: position update' % w.name,
                  'after writing %s bytes the position advances by %s' % (short(total), short(d)), ptext(p), [after, total])
        # every reference made on this path uses the position of this critical section
        if not failed:
            for x in p.ev:
                if x[0] == 'unlock' and x[3] is not None and not lock_is(x, lk):
                    for q in subterms(x[3]):
                        if q.op == 'agg' and childref(q):
                            off = terms._fld(q, -1, 'offset')
                            if off.op == 'fld' and off.a[0].op == 'locked' and off.a[0] in [s[2] for s in secs]:
                                judge(ctx, 'the reported offset is the position before the write', off == mk('fld', lk, *f), '%s: reported offset' % w.name,
                                      'the offset reported for a chunk is %s, it was written at %s' % (short(off), short(mk('fld', lk, *f))), ptext(p), [off])
                            elif not (off.op == 'fld' and off.a[0].op == 'locked'):
                                judge(ctx, 'the reported offset is the position before the write', False, '%s: reported offset' % w.name, 'the offset reported for a chunk is %s' % short(off), ptext(p), [off])

def lock_is(x, lk):
    return mk('locked', x[1], x[2]) == lk

def offset_field(ctx, w):
    """The field of the writer state that counts bytes: the one changed by successful writes, starting at zero."""
    if hasattr(w, '_off'):
        return w._off
    w._off = None
    cand = {}
    for p in w.paths:
        for i, j, lk, new in sections(p):
            if new is not None and new.op == 'upd' and new.a[0] == lk and any(p.ev.index(x) > i for x in p.writes):
                for (v, f), _ in new.a[1]:
                    if f != 'writer':
                        cand[(v, f)] = cand.get((v, f), 0) + 1
                mt = lk.a[0]
    if len(cand) == 1:
        w._off = next(iter(cand))
    elif not cand:
        # nothing is ever updated: take the integer field of the guarded state
        for p in w.paths:
            for x in p.writes:
                for lk in lock_of(x[2]):
                    mt = lk.a[0]
                    if mt.op == 'agg' and mt.a[0] == 'mutex' and mt.a[2][1].op == 'agg':
                        c = mt.a[2][1]
                        ns = terms.NAMES.get((c.a[0], 0)) or []
                        ints = [n for n, v in zip(ns, c.a[2]) if isint(v)]
                        if len(ints) == 1:
                            w._off = (-1, ints[0])
    return w._off

def c04(ctx):
    for w in writers(ctx, ('opt_write', 'opt_write_sync', 'opt_save', 'opt_save_sync')):
        ctx.count('entry points')
        atomic_writes(ctx, w)
        f = offset_field(ctx, w)
        for p in w.paths:
            for x in p.writes[:1]:
                for lk in lock_of(x[2])[:1]:
                    mt = lk.a[0]
                    if f and mt.op == 'agg' and mt.a[0] == 'mutex':
                        z = terms._fld(mt.a[2][1], *f)
                        judge(ctx, 'positions count from the start of the data', z == ZERO, '%s: initial position' % w.name, 'the position starts at %s' % short(z), '', [z])
        # nothing but chunks before the trailer
        for o in w.ok:
            ws = [x for x in o.ev if x[0] == 'sink' and x[1] == 'write' and not w.is_trailer(x)]
            judge(ctx, 'only chunks precede the trailer', not ws, '%s: other data written' % w.name, 'bytes that are no chunk are written: %s' % short(ws[0][3] if ws else ''), path_text(o), [x[3] for x in ws])
        for x in set(x for p in w.paths for x in p.writes if x[1] == 'partial_write'):
            ctx.violate('%s: short write' % w.name, 'a chunk is written with Write::write, which may accept only part of it')
        for p in w.paths:
            if done(p):
                for i, j, lk, new in sections(p):
                    pass
                r = [e for e in effects(p)[0] + effects(p)[3]]
                for e in r:
                    v = e[2].a[2].a[2][0] if e[2].op == 'ixupd' and is_some(e[2].a[2]) else e[2]
                    if childref(v):
                        check_ref(ctx, w, 'chunk', terms._fld(v, -1, 'offset'), terms._fld(v, -1, 'length'), p, p.facts)
    ctx.floor('chunk writes', 20)
    return ('Every critical section on the writer lock in every worker path and serial iteration: each chunk is written by calls that all lie inside one section, the position is read and advanced in that same section by exactly the bytes accepted, '
            'is unchanged when the write failed, starts at zero, and the reference handed to the parent carries exactly that position and length. Lock sections are atomic, so the argument covers every interleaving.',
            ['std::sync::Mutex provides mutual exclusion', 'Write::write_all accepts all bytes or fails'])

# ---------------------------------------------------------------- C05 (writer side), C07, C08: chunk contents
CIDS = (0, 1, 2, 7, 8, 255)

def comp_ids(ctx):
    """Compressor type -> id, from Compressor::id."""
    out = {}
    for b in ctx.fx.F.values():
        if b['m'] == 'id' and b.get('tr') == 'parcode::compression::Compressor':
            u = ctx.unit(b, ())
            if u is not None and len(u.outs) == 1 and isint(u.outs[0].ret):
                out[ctx.fx.T[b['self']]['s']] = u.outs[0].ret.a[0]
    return out

def comp_of(body):
    """(compressor type, source) of the payload pieces."""
    if len(body) == 1 and body[0].op == 'cmp':
        return body[0].a[0], body[0].a[1]
    if len(body) == 1 and body[0].op == 'all':
        return None, body[0].a[0]
    return 'other', None

def cname(t):
    """Type name of a compressor term."""
    if t is None:
        return None
    if isinstance(t, str):
        return t
    if t.op == 'rv':
        t = t.a[0]
    return t.a[0] if t.op == 'agg' else sh(t)

def option_args(ctx, u_row, use):
    """Arguments of an options entry point with a given compression choice, built by the public builder."""
    o = ctx.unit(ctx.row('probe::write::builder'), ())
    c = ctx.unit(ctx.row('probe::write::compression'), ())
    v0 = o.outs[0].ret
    crow = ctx.row('probe::write::compression')
    names = [l[1] for l in crow['locs'][1:crow['argc'] + 1]]
    v = subst(c.outs[0].ret, {mk('p', names[0]): v0, mk('p', names[1]): I(use)})
    args = []
    for i in range(1, u_row['argc'] + 1):
        ty, nm = u_row['locs'][i]
        s = ctx.fx.T[ty]['s']
        if 'ParcodeOptions' in s:
            args.append(mk('rv', v) if s.startswith('&') else v)
        else:
            args.append(mk('p', nm or 'a%d' % (i - 1)))
    return tuple(args), v

def concrete(ctx, name, use, cid):
    key = ('WC', name, use, cid)
    if key not in ctx.cache:
        row = ctx.row('probe::write::' + name)
        args = None
        if use is not None:
            args, v = option_args(ctx, row, use)
        ctx.cache[key] = Writer(ctx, name, args=args, jobcid=cid)
    return ctx.cache[key]

def norm_content(w, p):
    ps = [q for x in p.writes for q in pieces(w.norm(x[3], p))]
    m = {}
    for q in ps:
        for t in subterms(q):
            if t.op == 'jobout':
                m[t] = mk('p', 'J')
            elif t.op == 'locked' and t.a[0].op == 'fld' and t.a[0].a[0] == mk('p', 'N'):
                m[t] = mk('p', 'CC')
    return tuple(subst(subst(q, m), m) for q in ps)

def table(ctx, name, use, cid):
    """{(has children, content)} plus problems, of one entry point under concrete options."""
    w = concrete(ctx, name, use, cid)
    out, refused = {}, []
    if w.u is None:
        return w, out, refused
    for p in w.paths:
        if done(p):
            c = norm_content(w, p)
            body, tb, cnt, meta = split_chunk(list(c))
            out[(tb is not None, tuple(alpha(q) for q in c))] = p
        elif not p.fails and not p.abort and not infeasible(p) and not p.writes and not internal_refusal(p):
            refused.append(p)
    return w, out, refused

def alpha(t):
    if t.op == 'rep':
        return mk('rep', t.a[0], bv(90), tuple((tuple(subst(c, {t.a[1]: bv(90)}) for c in cs), tuple(subst(q, {t.a[1]: bv(90)}) for q in ps)) for cs, ps in t.a[2]))
    return t

def internal_refusal(p):
    """Refusals that can only follow from a broken internal invariant (a child that was never recorded)."""
    sp = shape(p.w.ctx)
    if p.ret is None:
        return p.kind == 'serial'
    for t, v in p.facts.v.items():
        if v == 0 and any(q.op == 'locked' and q.a[0].op == 'fld' and q.a[0].a[2] == sp.kids for q in subterms(t)):
            return True
    return False

def expected_comp(ids, use, cid):
    want = cid if cid else (1 if use else 0)
    return want if want in ids.values() else 0

def compression_table(ctx, names, rule, want_choice=True):
    """For every option and every per-chunk algorithm id: what is applied and what is recorded."""
    ids = comp_ids(ctx)
    byid = {v: k for k, v in ids.items()}
    if 0 not in byid:
        raise Anchor('no compressor with id 0')
    for name, uses in names:
        if not ctx.here(name):
            continue
        for use in uses:
            for cid in CIDS:
                w, tab, refused = table(ctx, name, use, cid)
                ctx.count('option cases')
                where = '%s with compression(%s), chunk algorithm %d' % (name, bool(use) if use is not None else 'default', cid)
                ctx.ob('an unavailable algorithm falls back')
                if refused:
                    ctx.violate('%s: refuses algorithm %s' % (name, 'unavailable' if cid not in byid else cid), '%s: no chunk is written' % where, ptext(refused[0]))
                    continue
                if w.u is not None and not tab:
                    ctx.undec('%s: no chunk content found' % where)
                for (tb, c), p in tab.items():
                    body, t2, cnt, meta = split_chunk(list(c))
                    if body is None:
                        ctx.undec('%s: content %s' % (where, short(c)))
                        continue
                    X, src = comp_of(body)
                    if X == 'other':
                        judge(ctx, 'the payload is the compressed job output', False, '%s: payload' % name, '%s: payload is %s' % (where, short(body)), ptext(p), list(body))
                        continue
                    judge(ctx, 'the payload is the compressed job output', src == mk('p', 'J'), '%s: payload source' % name, '%s: payload is made from %s' % (where, short(src)), ptext(p), [src])
                    xid = ids.get(cname(X)) if X is not None else 0
                    if xid is None:
                        ctx.undec('%s: algorithm %s' % (where, short(X)))
                        continue
                    if not isint(meta):
                        judge(ctx, 'the recorded id is the applied algorithm', False, '%s: meta byte' % name, '%s: meta byte %s' % (where, short(meta)), ptext(p), [meta])
                        continue
                    rid = (meta.a[0] >> 1) & 7
                    judge(ctx, 'the recorded id is the applied algorithm', rid == xid, '%s: recorded algorithm' % name, '%s: applies %s but records id %d' % (where, cname(X), rid), ptext(p))
                    if want_choice:
                        e = expected_comp(ids, bool(use), cid)
                        judge(ctx, 'the options choose the algorithm', xid == e, '%s: compression choice for %s chunks' % (name, 'default' if cid == 0 else 'available' if cid in byid else 'unavailable'),
                              '%s: applies %s, expected %s' % (where, cname(X) or 'nothing', byid[e]), ptext(p))

ALLOPT = (('opt_write', (1, 0)), ('opt_write_sync', (1, 0)))

def equivalence(ctx):
    """Both executors produce the same chunks for the same options and job."""
    for use in (1, 0):
        for cid in CIDS:
            a = table(ctx, 'opt_write', use, cid)
            b = table(ctx, 'opt_write_sync', use, cid)
            ctx.count('option cases')
            where = 'compression(%s), chunk algorithm %d' % (bool(use), cid)
            ctx.ob('both writers produce the same chunks', max(len(a[1]), 1))
            if bool(a[2]) != bool(b[2]):
                bad = a if a[2] else b
                ctx.violate('only one writer accepts algorithm %d' % cid, '%s: %s refuses what the other writes' % (where, bad[0].name), ptext(bad[2][0]))
                continue
            ka, kb = {c for t, c in a[1]}, {c for t, c in b[1]}
            for x, y, n in ((ka, kb, 'opt_write'), (kb, ka, 'opt_write_sync')):
                for c in sorted(x - y, key=str):
                    if any(same_pieces(c, d) for d in y):
                        continue
                    near = [d for d in y if d not in x]
                    if resolved(*c) and all(resolved(*d) for d in y):
                        ctx.violate('writers differ', '%s: only %s can write %s (the other writes %s)' % (where, n, short(c), short(tuple(near[:2]))))
                    else:
                        ctx.undec('%s: %s writes %s' % (where, n, short(c)))
    # what is handed to the job, and what is recorded for it
    for w in writers(ctx, ('opt_write', 'opt_write_sync')):
        for p in w.paths:
            if done(p):
                kids_of_path(ctx, w, p)
    # what can fail
    kinds = {}
    for w in writers(ctx, ('opt_write', 'opt_write_sync')):
        kinds[w.name] = {x[1] for p in w.paths for x in p.fails}
    # the objects visited
    vis = {}
    for w in writers(ctx):
        vis.setdefault(tuple(sorted({(x[0], x[1], short(strip_sites(x[2])), tuple(sh(strip_sites(q)) for q in x[3][1:])) for o in w.ok for x in o.ev if x[0] in ('visit', 'visit_inlined')})), []).append(w.name)
    ctx.ob('every entry point visits the object the same way', len(vis))
    if len(vis) > 1:
        names = sorted(vis.items(), key=lambda kv: len(kv[1]))
        sites = [(k, n) for k, n in names]
        argn = {n: k for k, n in [(k, tuple(n)) for k, n in vis.items()]}
        shapes = {tuple((a, b, d) for a, b, c, d in k) for k in vis}
        if len(shapes) > 1:
            ctx.violate('entry points visit differently', 'the entry points visit the object differently: %s' % ' / '.join('%s: %s' % (n, short(str(k), 120)) for k, n in sites))

def c06(ctx):
    equivalence(ctx)
    ctx.floor('option cases', 12)
    return ('For every combination of the global option and the per-chunk algorithm id (0,1,2,7,8,255: default, available, unregistered, outside the table) the set of chunk contents the parallel worker can write is compared, as byte-sequence terms over the job output and the recorded children, '
            'with the set the serial executor can write; both must accept the same algorithms, pass the same children to the job and visit the object in the same way.',
            ['compressors are deterministic', 'fewer than 2^32 children per chunk'])

def c07(ctx):
    compression_table(ctx, (('opt_write', (1, 0)), ('opt_write_sync', (1, 0))), 'c07', want_choice=False)
    ids = comp_ids(ctx)
    ctx.ob('algorithm ids are distinct', len(ids))
    if len(set(ids.values())) != len(ids):
        ctx.violate('compressor ids collide', 'compressor ids: %s' % ids)
    for n, i in ids.items():
        if i > 7:
            ctx.violate('%s: id does not fit' % n, '%s has id %d, the meta byte holds 0..7' % (n, i))
    compressors(ctx)
    import rules_read
    rules_read.decompression(ctx)
    ctx.floor('option cases', 20)
    return ('Writer: for every option and per-chunk algorithm id, the id in the meta byte is that of the compressor whose output is the payload, with fallback to id 0. Compressors: compress, compress_append and decompress agree on one format and append only. '
            'Reader: read_raw selects the decompressor by the id bits of the chunk alone and fails for an unregistered id.',
            ['lz4_flex implements the LZ4 block format'])

def compressors(ctx):
    """compress_append appends exactly what compress returns; both are the format decompress reads."""
    rows = [b for b in ctx.fx.F.values() if b.get('tr') == 'parcode::compression::Compressor']
    by = {}
    for b in rows:
        by.setdefault(ctx.fx.T[b['self']]['s'], {})[b['m']] = b
    for s, ms in sorted(by.items()):
        ctx.count('compressors')
        dec, com = {}, {}
        for m in ('compress', 'compress_append', 'decompress'):
            if m not in ms:
                raise Anchor('%s::%s' % (s, m))
            u = ctx.unit(ms[m], ())
            if u is None:
                continue
            an = [mk('p', l[1] or 'a%d' % i) for i, l in enumerate(ms[m]['locs'][1:ms[m]['argc'] + 1])]
            data = mk('*', an[1])
            for o in u.outs:
                if not is_ok(o.ret):
                    continue
                if any(x[0] == 'fail' for x in walk(o.ev)):
                    ctx.violate('%s::%s: failure ignored' % (s, m), '%s::%s succeeds although %s failed' % (s, m, [x for x in o.ev if x[0] == 'fail'][0][1]), path_text(o))
                    continue
                if m == 'compress_append':
                    new = next((v for r, v in o.st.m.items() if r[0] == 'S' and r[1] == an[2]), mk('*', an[2]))
                    ps = pieces(new)
                    old = mk('*', an[2])
                    judge(ctx, 'compression appends', bool(ps) and ps[0] == mk('all', old), '%s: existing output changed' % s, '%s::compress_append turns the output into %s' % (s, short(new)), path_text(o), [new])
                    c = mk('seq', tuple(ps[1:]))
                else:
                    c = o.ret.a[2][0]
                    while c.op in ('agg', 'rv') and (c.op == 'rv' or c.a[0] == 'alloc::borrow::Cow'):
                        c = c.a[0] if c.op == 'rv' else c.a[2][0]
                if c == an[1]:
                    c = data
                f = fmt_of(c, data, o.facts)
                (dec if m == 'decompress' else com).setdefault(m, []).append((f, o, c))
        fs = {f for l in com.values() for f, _, _ in l}
        for m, l in com.items():
            for f, o, c in l:
                judge(ctx, 'compressed form', f in ('copy', 'lz4 with le32 size'), '%s::%s: output' % (s, m), '%s::%s produces %s' % (s, m, short(c)), path_text(o), [c])
        ctx.ob('compress and compress_append agree')
        if len(fs) > 1 and None not in fs:
            ctx.violate('%s: two formats' % s, '%s: compress and compress_append produce %s' % (s, fs))
        fd = {f for l in dec.values() for f, _, _ in l}
        ctx.ob('decompress reads the compressed form')
        for m, l in dec.items():
            for f, o, c in l:
                want = {'copy': 'copy', 'lz4 with le32 size': 'unlz4 with le32 size'}
                exp = {want.get(x) for x in fs}
                judge(ctx, 'decompress reads the compressed form', f in exp, '%s::decompress: format' % s, '%s::decompress returns %s' % (s, short(c)), path_text(o), [c])

def fmt_of(c, data, facts):
    if c == data:
        return 'copy'
    ps = pieces(c) if c.op == 'seq' else None
    if c.op == 'seq' and len(ps) == 1 and ps[0] == mk('all', data):
        return 'copy'
    if c.op == 'seq' and len(ps) == 2 and ps[0] == mk('le', 4, slen(data)) and ps[1] == mk('lz4', data):
        return 'lz4 with le32 size'
    if c.op == 'seq' and len(ps) == 3 and ps[2] == mk('lz4', data) and ps[0].op == 'le':
        return None
    if c.op == 'unlz4' and c.a[0] == data:
        return 'unlz4 with le32 size'
    if c.op == 'unlz4raw':
        src, size = c.a
        n = slen(data)
        if src == subseq(data, I(4), n) and size == rd('le', 4, subseq(data, ZERO, I(4))):
            return 'unlz4 with le32 size'
    return None

def c08(ctx):
    compression_table(ctx, (('opt_write', (1, 0)), ('opt_write_sync', (1, 0)), ('opt_save', (1, 0)), ('opt_save_sync', (1, 0)),
                            ('write', (None,)), ('save', (None,)), ('serialize', (None,)), ('write_sync', (None,)), ('save_sync', (None,))), 'c08')
    import rules_visit
    rules_visit.options(ctx)
    ctx.floor('option cases', 66)
    return ('Every entry point, both values of the global option and per-chunk algorithm ids 0,1,2,7,8,255: which compressor is applied to the payload, over every path of both executors. '
            'Visitors: the configuration given to a value reaches the job of every container and shard it creates, the configuration wrapper reports it, and every attribute spelling of the derive macro produces the configuration it names.',
            ['compressors other than the built-in ones cannot be registered for writing'])

# ---------------------------------------------------------------- C27 (writer side)
VARIANT = {'io': 'Io', 'read_exact': 'Io', 'encode': 'Serialization', 'decode': 'Serialization', 'compress': 'Compression', 'decompress': 'Compression'}

def error_kept(ctx, name, what, e, fs, facts, text):
    """e (a ParcodeError term) carries the failure fs."""
    fx = ctx.fx
    kind, er = fs[1], fs[2]
    ctx.ob('errors keep their cause')
    if e == er:
        return
    if kind in VARIANT:
        v = variant_name(fx, e)
        if v is None:
            if e.op in ('locked', 'fld', 'errof'):
                ctx.undec('%s: error %s' % (name, short(e)))
                return
            judge(ctx, 'errors keep their cause', False, '%s: %s error lost' % (name, kind), '%s: after %s failed the error is %s' % (what, kind, short(e)), text, [e])
            return
        if v != VARIANT[kind]:
            judge(ctx, 'errors keep their category', False, '%s: %s error category' % (name, kind), '%s: a failed %s is reported as %s' % (what, kind, v), text)
        elif not contains(e, er):
            judge(ctx, 'errors keep their cause', False, '%s: %s error lost' % (name, kind), '%s: the %s error does not carry the failure' % (what, v), text, [e])
    else:
        if not contains(e, er):
            judge(ctx, 'errors keep their cause', False, '%s: %s error lost' % (name, kind), '%s: after %s failed the error is %s' % (what, kind, short(e)), text, [e])

def writer_errors(ctx):
    for w in writers(ctx):
        ctx.count('entry points')
        for o in w.err:
            fs = [x for x in walk(o.ev) if x[0] == 'fail' and x[1] != 'poison']
            if fs:
                error_kept(ctx, w.name, w.name, err_of(o.ret), fs[-1], o.facts, path_text(o))
        if not w.parallel:
            continue
        cells = set()
        for p in w.paths:
            fs = [x for x in p.fails if x[1] != 'poison']
            reg, dec, spn, cap, errs, stores = effects(p)
            for i, x, v in errs:
                cells.add(subst(x[1], w.G))
            if not fs:
                continue
            ctx.ob('a failing worker reports its error')
            if errs:
                error_kept(ctx, w.name, 'worker of ' + w.name, errs[0][2], fs[0], p.facts, ptext(p))
            elif not signalled(p):
                judge(ctx, 'a failing worker reports its error', False, '%s: worker error dropped' % w.name, 'a worker does not record that %s failed' % fs[0][1], ptext(p))
            if errs:
                st = [s for s in stores if s[1][1] in ('store', 'swap', 'fetch_or', 'compare_exchange')]
                direct = any(q.op == 'locked' and subst(q.a[0], w.G) in cells for o in w.ok for t in o.facts.v for q in subterms(t))
                judge(ctx, 'a failing worker reports its error', bool(st) or direct, '%s: failure not signalled' % w.name, 'a worker records an error but the caller is not told to look at it', ptext(p))
        # the caller returns the recorded error
        hit = [o for o in w.err if err_of(o.ret) is not None and any(q.op == 'locked' and subst(q.a[0], w.G) in cells for q in subterms(err_of(o.ret)))]
        judge(ctx, 'the recorded error is returned', bool(hit) or not cells, '%s: recorded error not returned' % w.name, '%s never returns the error recorded by a worker' % w.name)
        # whenever an error is recorded the caller returns it: among outcomes that saw the abort flag and a recorded error
        for o in w.u.outs:
            for t, v in o.facts.v.items():
                if t.op == 'locked' and subst(t.a[0], w.G) in cells and (v == 1 or isinstance(v, frozenset) and 0 in v):
                    e = err_of(o.ret)
                    ctx.ob('the recorded error is returned')
                    if e is None or not contains(e, mk('locked', t.a[0], t.a[1])):
                        judge(ctx, 'the recorded error is returned', False, '%s: recorded error replaced' % w.name, '%s returns %s although a worker recorded an error' % (w.name, short(o.ret)), path_text(o), [o.ret])

def c27(ctx):
    writer_errors(ctx)
    for b in job_rows(ctx):
        u = seam_unit(ctx, b)
        if u is None:
            continue
        ctx.count('writer bodies')
        for o in u.outs:
            fs = [x for x in walk(o.ev) if x[0] == 'fail' and x[1] != 'poison']
            if fs and is_err(o.ret):
                error_kept(ctx, rowname(ctx, b), rowname(ctx, b), err_of(o.ret), fs[-1], o.facts, path_text(o))
    import rules_err
    rules_err.errors(ctx)
    ctx.floor('entry points', 9)
    return ('Every path of every writer and reader body on which an operation failed: the returned error contains that failure and is of its category (I/O, serialization, compression); the error a worker records is the failure it met and is what the caller returns; conversions and source() keep the inner error; '
            'malformed trailers and chunk bounds produce format errors.',
            ['mutexes are not poisoned'])

# ---------------------------------------------------------------- C05 (writer side)
def written_layout(ctx):
    """Chunk and trailer bytes follow the documented layout."""
    for name in ('opt_write', 'opt_write_sync'):
        for use in (1, 0):
            for cid in CIDS:
                w, tab, refused = table(ctx, name, use, cid)
                for (tb, c), p in tab.items():
                    layout_of(ctx, name, c, p)
                    ctx.count('chunk layouts')
    ctx.floor('chunk layouts', 24)
    for w in writers(ctx):
        ctx.count('entry points')
        for o in w.ok:
            trailer_layout(ctx, w, o)
    ctx.floor('entry points', 9)
    kinds = container_jobs(ctx)
    for b in job_rows(ctx):
        k = kinds.get(ctx.fx.T[b['self']].get('def')) if b['m'] == 'execute' and b.get('self') is not None else None
        if k:
            container_layout(ctx, b, k)
    ctx.floor('containers', 2)

def container_jobs(ctx):
    """The job types of the nodes that a vector or a map hangs its shards from."""
    import rules_vec, rules_map, rules_visit
    kinds = {}
    for kind, rows in (('Vec', [r[0] for r in rules_vec.vec_rows(ctx, 'visit')]), ('Map', [r[0] for r in rules_map.map_rows(ctx, 'visit')])):
        for b in rows:
            u = rules_visit.visit_unit(ctx, b)
            for o in u.outs if u else ():
                nodes = [x for x in o.ev if x[0] == 'add_node']
                if len(nodes) != 1 or not any(y[0] == 'add_node' for x in o.ev if x[0] == 'loop' for y in walk([x])):
                    continue
                v = rules_map.strip(nodes[0][2])
                while v.op == 'agg':
                    inner = [rules_map.strip(x) for x in v.a[2] if rules_map.strip(x).op == 'agg' and rules_map.job_types(ctx, rules_map.strip(x).a[0])]
                    if len(inner) != 1:
                        break
                    v = inner[0]
                if v.op == 'agg' and rules_map.job_types(ctx, v.a[0]):
                    kinds[v.a[0]] = kind
    return kinds

def layout_of(ctx, name, c, p):
    cc = mk('p', 'CC')
    f = normfacts(p.w, p)
    meta = c[-1] if c else None
    if meta is None or meta.op != 'b':
        return judge(ctx, 'a chunk ends with its meta byte', False, '%s: last byte' % name, 'a chunk is written as %s' % short(c), ptext(p), list(c))
    kids = p.w.kids(p)
    empty = f.implies(eqz(slen(kids)))
    body = list(c[:-1])
    k = mk('k', 'exp')
    el = mk('fld', mk('elem', cc, k), 1, 0)
    want = rep1(mkrep(slen(cc), k, (((), (mk('le', 8, mk('fld', el, -1, 'offset')), mk('le', 8, mk('fld', el, -1, 'length')))),)))
    i = next((i for i, q in enumerate(body) if q.op in ('rep', 'le', 'be', 'b')), len(body))
    payload, tail = body[:i], body[i:]
    if empty is None and not tail:
        empty = True
    if empty:
        judge(ctx, 'a chunk without children is payload and meta byte', not tail, '%s: bytes between payload and meta byte' % name, 'a chunk without children carries %s after its payload' % short(tuple(tail)), ptext(p), tail)
    else:
        good = len(tail) == 2 and tail[1].op == 'le' and tail[1].a[0] == 4 and tail[1].a[1] in (slen(cc), slen(kids)) and (same_rep(tail[0], want))
        judge(ctx, 'payload, references, count, meta byte', good, '%s: child table layout' % name, 'a chunk with children carries %s after its payload, documented are 16-byte little-endian references and their u32 count' % short(tuple(tail)), ptext(p), tail)
    m = meta.a[0]
    if not isint(m):
        return judge(ctx, 'the meta byte is documented', False, '%s: meta byte' % name, 'the meta byte is %s' % short(m), ptext(p), [m])
    judge(ctx, 'bit 0 says there are children', (m.a[0] & 1) == (0 if empty else 1), '%s: chunkable bit' % name, 'the meta byte %d of a chunk %s children' % (m.a[0], 'without' if empty else 'with'), ptext(p))
    ids = comp_ids(ctx)
    X, src = comp_of(payload)
    xid = ids.get(cname(X)) if X not in (None, 'other') else (0 if X is None else None)
    if xid is not None:
        judge(ctx, 'bits 1-3 are the algorithm', (m.a[0] >> 1) == xid, '%s: algorithm bits' % name, 'the meta byte %d records algorithm %d for %s' % (m.a[0], m.a[0] >> 1, cname(X)), ptext(p))

def trailer_layout(ctx, w, o):
    ev = list(o.ev)
    last = max([i for i, x in enumerate(ev) if x[0] in ('scope_end', 'scope_begin') or (x[0] == 'loop' and any(y[0] in ('execute', 'spawn') for y in walk([x])))], default=None)
    if last is None:
        return ctx.undec('%s: no executor on a successful path' % w.name)
    tail = [x for x in ev[last + 1:] if x[0] == 'sink' and x[1] == 'write']
    ps = [q for x in tail for q in pieces(x[3])]
    good = len(ps) == 12 and [q.a[0].a[0] if q.op == 'b' and isint(q.a[0]) else None for q in ps[:6]] == [80, 65, 82, 52, 4, 0] and \
        all(q.op == 'le' and q.a[0] == 8 for q in ps[6:8]) and all(q.op == 'b' and q.a[0] == ZERO for q in ps[8:])
    judge(ctx, 'the trailer is 26 documented bytes', good, '%s: trailer layout' % w.name, 'the trailer is %s' % short(tuple(ps)), path_text(o), ps)

def container_layout(ctx, b, kind):
    u = seam_unit(ctx, b)
    if u is None:
        return
    name = rowname(ctx, b)
    for o in u.outs:
        if not is_ok(o.ret):
            continue
        ctx.count('containers')
        ps = pieces(o.ret.a[2][0])
        if kind == 'Map':
            judge(ctx, 'a map container is the u32 shard count', len(ps) == 1 and ps[0].op == 'le' and ps[0].a[0] == 4, 'map container layout', 'a map container is written as %s' % short(tuple(ps)), '', list(ps))
        else:
            judge(ctx, 'a vector container starts with the u64 length', len(ps) >= 1 and ps[0].op == 'le' and ps[0].a[0] == 8, 'vector container layout', 'a vector container is written as %s' % short(tuple(ps)), '', list(ps))
