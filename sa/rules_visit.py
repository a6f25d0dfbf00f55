"""Visitor rules: how values become nodes of the task graph (linking, sharding, options, derived types)."""
from core import *
from core import walk
import domain
from models import NONE, some
import rules_write as W
from rules_write import judge, resolved, short, is_some

VIS = 'parcode::visitor::ParcodeVisitor'

def selfname(ctx, b):
    return ctx.fx.T[b['self']]['s'] if b.get('self') is not None else ''

def visit_rows(ctx, ms=('visit', 'visit_inlined')):
    rows = [b for b in ctx.fx.F.values() if b.get('tr') == VIS and b['m'] in ms]
    return sorted(rows, key=lambda b: (b['m'], selfname(ctx, b)))

def visit_unit(ctx, b):
    return ctx.unit(b, ('traits', 'graph'))

def linking(ctx):
    rows = visit_rows(ctx)
    if len(rows) < 30:
        raise Anchor('only %d visitor bodies' % len(rows))
    for b in rows:
        u = visit_unit(ctx, b)
        if u is None:
            continue
        ctx.count('visitor bodies')
        name = '%s::%s' % (selfname(ctx, b), b['m'])
        args = [mk('p', l[1] or 'a%d' % i) for i, l in enumerate(b['locs'][1:b['argc'] + 1])]
        parg = args[2]
        for o in u.outs:
            created, unlinked = [], []
            def go(ev, created, first):
                here = []
                linked = []
                for x in ev:
                    if x[0] == 'add_node':
                        created = created + [x[1]]
                        here.append(x[1])
                    elif x[0] == 'link':
                        p, c = x[1], x[2]
                        if c in linked:
                            ctx.violate('%s: node linked twice' % name, '%s links a node twice' % name, path_text(o))
                        linked.append(c)
                        okc = c in here
                        judge(ctx, 'a new node is linked where it is created', okc, '%s: links an older node' % name, '%s links %s, which was not created here' % (name, short(c)), path_text(o), [c])
                        pok = (p in created and p != c and (p not in here or c not in here or here.index(p) < here.index(c))) or \
                            (b['m'] == 'visit' and p == mk('fld', parg, 1, 0) and o.facts.v.get(parg) == 1) or (b['m'] == 'visit_inlined' and p == parg)
                        judge(ctx, 'parents are created before children', pok, '%s: parent link' % name, '%s links a node to %s' % (name, short(p)), path_text(o), [p])
                    elif x[0] in ('visit', 'visit_inlined'):
                        pa = x[3][1] if len(x) > 3 and len(x[3]) > 1 else None
                        ctx.ob('children are visited below a node of this value')
                        if x[0] == 'visit':
                            ok = pa is not None and (pa == parg or is_some(pa) and (pa.a[2][0] in created or pa.a[2][0] in (parg, mk('fld', parg, 1, 0))))
                        else:
                            ok = pa is not None and (pa in created or pa in (parg, mk('fld', parg, 1, 0)))
                        if not ok:
                            judge(ctx, 'children are visited below a node of this value', False, '%s: child visited elsewhere' % name, '%s visits a child below %s' % (name, short(pa)), path_text(o), [pa])
                    elif x[0] == 'loop':
                        for c, e in x[3]:
                            go(e, created, False)
                un = [n for n in here if n not in linked]
                isroot = first and b['m'] == 'visit' and o.facts.v.get(parg) == 0
                if isroot:
                    judge(ctx, 'exactly one node without a parent', un == here[:1] and (len(un) == 1 or not here), '%s: %d nodes without parent' % (name, len(un)), '%s leaves %d new nodes without a parent' % (name, len(un)), path_text(o), un)
                else:
                    judge(ctx, 'every new node has a parent', not un, '%s: node without parent' % name, '%s leaves a new node without a parent' % name, path_text(o), un)
            go(o.ev, [], True)
            if b['m'] == 'visit' and o.facts.v.get(parg) is None and any(x[0] == 'add_node' for x in o.ev):
                if selfname(ctx, b)[:1] != '&':
                    ctx.violate('%s: parent ignored' % name, '%s does not look at its parent' % name, path_text(o))
    ctx.floor('visitor bodies', 30)

# ---------------------------------------------------------------- configuration (C08)
JOB = 'parcode::graph::job::SerializationJob'
# attributes of the probe's chunkable fields: (algorithm id, map)
ATTRS = {('Root', 'lz'): (1, 0), ('Root', 'lzp'): (1, 0), ('Root', 'lzs'): (1, 0), ('Root', 'zs'): (2, 0), ('Root', 'm'): (0, 1), ('Root', 'mz'): (1, 1), ('Root', 'mi'): (0, 1), ('Root', 'blobz'): (1, 0),
         ('Spellings', 'two_attrs'): (1, 0), ('Spellings', 'map_two'): (1, 1), ('Spellings', 'map_none'): (0, 1)}

def config_of(ctx, u, o, v):
    """The configurations a job value reports: ('arg', option term) for a job made elsewhere, else a list of terms; None if unknown."""
    while v.op in ('rv', '*'):
        v = v.a[0]
    if v.op == 'job':
        return ('arg', v.a[2])
    if v.op != 'agg':
        return None
    rows = [b for b in ctx.fx.F.values() if b.get('tr') == JOB and b['m'] == 'config' and b.get('self') is not None and ctx.fx.T[b['self']].get('def') == v.a[0]]
    if not rows:
        return None
    try:
        outs = u.e.run_inst(rows[0]['inst'], [mk('rv', v)], o.st.copy())
    except Undecided:
        return None
    ctx.analysed.add(rows[0]['p'])
    return ('val', [q.ret for q in outs])

def carries(cfg, carg, variant, default):
    """Does a job with this configuration carry the option given to the visitor?  None when that is not known."""
    if cfg is None:
        return None
    kind, v = cfg
    if kind == 'arg':
        return v is carg or variant == 0 and v.op == 'agg' and v.a[1] == 0 or variant == 1 and is_some(v) and v.a[2][0] is mk('fld', carg, 1, 0)
    if variant == 1:
        return all(x is mk('fld', carg, 1, 0) for x in v)
    if variant == 0:
        return all(x is default or x.op == 'agg' and all(f is ZERO for f in x.a[2]) for x in v)
    # depends on the option by itself
    return len(v) == 1 and contains(v[0], carg)

def options(ctx):
    for b in visit_rows(ctx):
        name = '%s::%s' % (selfname(ctx, b), b['m'])
        u = visit_unit(ctx, b)
        if u is None:
            continue
        carg = mk('p', b['locs'][4][1] or 'a3')
        me = deref_self(b)
        for o in u.outs:
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (name, w))
                continue
            var = o.facts.v.get(carg)
            var = var if isinstance(var, int) else None
            det = path_text(o)
            if b['m'] == 'visit':
                replaced = {}
                for x in walk(o.ev):
                    if x[0] == 'replace_job':
                        replaced.setdefault(x[1], []).append(x[2])
                jobs = []
                for x in walk(o.ev):
                    if x[0] == 'add_node':
                        jobs += replaced.get(x[1], [x[2]])
                for job in jobs:
                    c = config_of(ctx, u, o, job)
                    r = carries(c, carg, var, None)
                    ctx.ob('every chunk of a value carries its configuration')
                    ctx.count('configured chunks')
                    if r is None:
                        ctx.undec('%s: configuration of %s' % (name, short(job)))
                    elif not r:
                        judge(ctx, 'every chunk of a value carries its configuration', False, '%s: configuration of a chunk' % name,
                              '%s was given %s, a chunk it creates carries %s' % (name, 'a configuration' if var == 1 else 'none' if var == 0 else 'an option', short(tuple(c[1]) if c[0] == 'val' else c[1])), det,
                              c[1] if c[0] == 'val' else [c[1]])
            for x in walk(o.ev):
                if x[0] not in ('visit', 'visit_inlined'):
                    continue
                ca = x[3][2] if len(x[3]) > 2 else None
                f = field_name(x[2], me)
                if x[2] is me or x[2] is mk('*', me):
                    judge(ctx, 'a wrapper passes its configuration on', ca is carg, '%s: configuration dropped' % name, '%s visits the value with %s' % (name, short(ca)), det, [ca])
                elif x[0] == 'visit' and f is not None:
                    want = ATTRS.get((selfname(ctx, b), f), (0, 0))
                    good = want == (0, 0) and ca.op == 'agg' and ca.a[1] == 0 or is_some(ca) and ca.a[2][0].op == 'agg' and tuple(q.a[0] if q.op == 'i' else None for q in ca.a[2][0].a[2]) == want
                    ctx.count('field attributes')
                    judge(ctx, 'the attributes of a field become its configuration', good, '%s: attributes of %s' % (name, f), '%s is declared with algorithm %d%s, it is visited with %s' % (f, want[0], ' as a map' if want[1] else '', short(ca)), det, [ca])
    # jobs made on their own
    for b in sorted((b for b in ctx.fx.F.values() if b.get('tr') == VIS and b['m'] == 'create_job'), key=lambda b: selfname(ctx, b)):
        name = '%s::create_job' % selfname(ctx, b)
        u = ctx.unit(b, ('traits', 'graph'), ((selfname(ctx, b), 'create_job'),))
        carg = mk('p', b['locs'][2][1] or 'a1')
        for o in (u.outs if u else ()):
            w = murky(o.ev, o.facts)
            if w:
                ctx.undec('%s: %s' % (name, w))
                continue
            var = o.facts.v.get(carg)
            c = config_of(ctx, u, o, o.ret)
            r = carries(c, carg, var if isinstance(var, int) else None, None)
            ctx.ob('every chunk of a value carries its configuration')
            ctx.count('configured chunks')
            if r is None:
                ctx.undec('%s: configuration of %s' % (name, short(o.ret)))
            elif not r:
                judge(ctx, 'every chunk of a value carries its configuration', False, '%s: configuration of the job' % name, '%s was given %s, the job carries %s' % (name, 'a configuration' if var == 1 else 'none', short(tuple(c[1]) if c[0] == 'val' else c[1])), path_text(o), c[1] if c[0] == 'val' else [c[1]])
    ctx.floor('configured chunks', 60)
    ctx.floor('field attributes', 30)

def deref_self(b):
    return mk('*', mk('p', b['locs'][1][1] or 'a0'))

def field_name(v, me):
    if v.op == 'fld' and v.a[0] is me:
        return v.a[2]
    return None
