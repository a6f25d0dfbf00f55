"""Analysis units: one entry point analysed with the crate's own public seams kept abstract.

A seam is a public trait method or public inherent method of the crate.  In a unit it is replaced by its contract
(an event plus symbolic results); the implementation behind it is a unit of its own."""
import sys
from terms import *
import terms
from engine import Engine, Undecided, St, Outcome
from models import ok, err, some, NONE, tup, RES, COW
import facts as factsmod

sys.setrecursionlimit(20000)

VIS = 'parcode::visitor::ParcodeVisitor'
NAT = 'parcode::reader::ParcodeNative'
ITEM = 'parcode::reader::ParcodeItem'
LAZY = 'parcode::rt::ParcodeLazyRef'
JOB = 'parcode::graph::job::SerializationJob'

def selfty(e, c):
    return e.tys(c.fn['args'][0]) if c.fn.get('args') else '?'

# ---- writer seams
def h_visit(e, st, c):
    t = selfty(e, c)
    st.emit(c.fn['m'], t, e.deref(st, c.args[0]), tuple(c.args[1:]))
    g = c.args[1]
    e.store(st, g, mk('visited', e.deref(st, g), t, e.deref(st, c.args[0]), tuple(c.args[2:]), c.site))
    return UNIT
def h_create_job(e, st, c):
    st.emit('create_job', selfty(e, c), e.deref(st, c.args[0]), c.args[1])
    return mk('job', selfty(e, c), e.deref(st, c.args[0]), c.args[1])
def buf_of(e, st, c, i):
    """(pointer, content) of a writer argument (&mut W with W possibly another &mut)."""
    from models import sink_target
    return c.args[i]
def h_shallow(e, st, c):
    from models import write_to
    t = selfty(e, c)
    sl = c.fn['m'] == 'serialize_slice'
    p = mk('slice' if sl else 'shallow', t, e.deref(st, c.args[0]))
    st.emit(c.fn['m'], t, e.deref(st, c.args[0]))
    r = write_to(e, st, c, c.args[1], c.at[1], mk('seq', (p,)), what='encode')
    return r
# ---- graph seams
def h_add_node(e, st, c):
    g = e.deref(st, c.args[0])
    nid = mk('nid', c.args[1], c.site)
    st.emit('add_node', nid, e.deref(st, c.args[1]))
    return nid
def h_link(e, st, c):
    st.emit('link', c.args[1], c.args[2])
    return UNIT
def h_replace(e, st, c):
    st.emit('replace_job', c.args[1], e.deref(st, c.args[2]))
    return UNIT
# ---- reader seams
def fork_call(e, st, c, key, good, ev=None):
    """Ok(good) / Err(symbolic) of a fallible seam, keyed by the call term."""
    k = st.facts.v.get(key)
    if ev:
        st.emit(*ev)
    out = []
    if k != 1:
        s = st.copy()
        s.facts.v[key] = 0
        out.append((s, ok(good)))
    if k != 0:
        s = st
        s.facts.v[key] = 1
        er = mk('errof', key)
        s.emit('fail', key.a[0] if key.a and isinstance(key.a[0], str) else key.op, er)
        out.append((s, err(er)))
    return out
def h_read_raw(e, st, c):
    n = e.deref(st, c.args[0])
    return fork_call(e, st, c, mk('call', 'read_raw', n), mk('agg', COW, 0, (mk('rv', mk('payload', n)),)), ('read_raw', n))
def h_children(e, st, c):
    n = e.deref(st, c.args[0])
    k = mk('k', 'ch')
    cnt = e.note(terms._fld(n, -1, terms.CC[0]), e.u32)
    out = fork_call(e, st, c, mk('call', 'children', n), seq(mkrep(cnt, k, (((), (mk('b', mk('child', n, k)),)),))), ('children', n))
    return out
def h_child(e, st, c):
    n = e.deref(st, c.args[0])
    i = c.args[1]
    cnt = e.note(terms._fld(n, -1, terms.CC[0]), e.u32)
    out = fork_call(e, st, c, mk('call', 'child', n, i), mk('child', n, i), ('child', n, i))
    r = []
    for s, v in out:
        if v.a[1] == 0 and not s.facts.assume(lt(i, cnt)):
            continue
        r.append((s, v))
    return r
def h_root_node(e, st, c):
    f = e.deref(st, c.args[0])
    return fork_call(e, st, c, mk('call', 'root_node', f), mk('rootnode', f), ('root_node', f))
def h_from_node(e, st, c):
    t = selfty(e, c)
    n = e.deref(st, c.args[0])
    return fork_call(e, st, c, mk('call', 'from_node', t, n), mk('fromnode', t, n), ('from_node', t, n))
def h_create_lazy(e, st, c):
    t = selfty(e, c)
    n = c.args[0]
    return fork_call(e, st, c, mk('call', 'create_lazy', t, n), mk('lazy', t, n), ('create_lazy', t, n))
def h_item(e, st, c):
    """Stream readers: consume an unknown amount of the shard stream and of the child iterator."""
    m, t = c.fn['m'], selfty(e, c)
    r0, c0 = e.deref(st, c.args[0]), e.deref(st, c.args[1])
    args = (r0, c0)
    if m == 'read_into_slice':
        args = args + (slen(e.deref(st, c.args[2])),)
        st.emit(m, t, r0, c0, c.args[2], e.deref(st, c.args[2]), c.site)
    else:
        st.emit(m, t, r0, c0)
    key = mk('call', m, t, *args)
    good = mk({'read_from_shard': 'item', 'read_slice_from_shard': 'items', 'read_into_slice': 'nread', 'read_lazy_from_stream': 'lazyitem'}[m], t, *args)
    if m == 'read_into_slice':
        e.note(good, c.dt)
    out = fork_call(e, st, c, key, good)
    for s, v in out:
        if r0.op == 'agg' and r0.a[0] == 'Cursor':
            np = mk('posafter', good, r0.a[2][1])
            UB_note(np)
            e.store(s, c.args[0], mk('agg', 'Cursor', 0, (r0.a[2][0], np)))
        else:
            e.store(s, c.args[0], mk('after', good, r0))
        e.store(s, c.args[1], mk('after', good, c0))
    return out
def UB_note(t):
    from domain import UB
    UB.setdefault(t, (1 << 64) - 1)
def h_decode(e, st, c):
    """ChunkNode::decode::<T>"""
    n = e.deref(st, c.args[0])
    t = e.tys(c.fn['args'][-1])
    return fork_call(e, st, c, mk('call', 'decode', t, n), mk('decoded', t, n), ('decode_node', t, n))
def h_coll(e, st, c):
    n = e.deref(st, c.args[0])
    t = e.tys(c.fn['args'][-1])
    return fork_call(e, st, c, mk('call', 'coll', t, n), mk('coll', t, n), ('coll', t, n))

TRAIT = {
    (VIS, 'visit'): h_visit, (VIS, 'visit_inlined'): h_visit, (VIS, 'create_job'): h_create_job,
    (VIS, 'serialize_shallow'): h_shallow, (VIS, 'serialize_slice'): h_shallow,
    (NAT, 'from_node'): h_from_node, (LAZY, 'create_lazy'): h_create_lazy,
    (LAZY, 'read_lazy_from_stream'): h_item, (ITEM, 'read_from_shard'): h_item,
    (ITEM, 'read_slice_from_shard'): h_item, (ITEM, 'read_into_slice'): h_item,
}
PATHS = {
    'graph': {'parcode::graph::core::TaskGraph::<\'a>::add_node': h_add_node,
              'parcode::graph::core::TaskGraph::<\'a>::link_parent_child': h_link,
              'parcode::graph::core::TaskGraph::<\'a>::replace_job': h_replace},
    'node': {'parcode::reader::ChunkNode::<\'a>::read_raw': h_read_raw,
             'parcode::reader::ChunkNode::<\'a>::children': h_children,
             'parcode::reader::ChunkNode::<\'a>::get_child_by_index': h_child},
    'raw': {'parcode::reader::ChunkNode::<\'a>::read_raw': h_read_raw},
    'root': {'parcode::reader::ParcodeFile::root_node': h_root_node},
    'decode': {'parcode::reader::ChunkNode::<\'a>::decode': h_decode},
    'coll': {'parcode::reader::ChunkNode::<\'a>::decode_parallel_collection': h_coll},
}

class Unit:
    def __init__(self, eng, outs, inst, row):
        self.e, self.outs, self.inst, self.row = eng, outs, inst, row
        self.p = row['p']

def make_engine(fx, seams=(), keep=None, **kw):
    """seams: PATHS groups, 'traits' for all trait seams except those whose self type is in `keep`."""
    table = {}
    for g in seams:
        table.update(PATHS.get(g, {}))
    keep = keep or ()
    def opaque(e, fn):
        if 'traits' in seams:
            tr = fn.get('tr')
            if tr == 'core::clone::Clone' and fn['m'] == 'clone' and e.tys(fn['args'][0]) == 'parcode::error::ParcodeError' and 'errclone' not in keep:
                return lambda e, st, c: e.deref(st, c.args[0])
            if tr:
                h = TRAIT.get((tr, fn['m']))
                if h is not None:
                    s = e.tys(fn['args'][0]) if fn.get('args') else '?'
                    if s not in keep and (s, fn['m']) not in keep:
                        return h
        if table:
            h = table.get(fn['p']) or table.get(fn.get('rp'))
            if h is not None and fn['m'] not in keep:
                return h
        return None
    e = Engine(fx, opaque=opaque, **kw)
    e.u32 = next((i for i, r in fx.T.items() if r['s'] == 'u32'), None)
    return e

def find(fx, m, self_s=None, tr=None, path=None, probe=None):
    r = []
    for b in fx.F.values():
        if m is not None and b['m'] != m:
            continue
        if tr is not None and b.get('tr') != tr:
            continue
        if self_s is not None and (b.get('self') is None or fx.T[b['self']]['s'] != self_s):
            continue
        if path is not None and b['p'] != path:
            continue
        r.append(b)
    return r

def argnames(row):
    return [mk('p', l[1] or 'a%d' % i) for i, l in enumerate(row['locs'][1:row['argc'] + 1])]

def counted_field(fx):
    """The private field behind ChunkNode::child_count()."""
    if not hasattr(fx, 'cc'):
        fx.cc = 'child_count'
        for b in fx.F.values():
            if b['m'] == 'child_count' and b['p'].startswith('parcode::reader::ChunkNode'):
                outs = make_engine(fx, (), None).run_inst(b['inst'], [mk('p', 'self')], None)
                fs = {o.ret.a[-1] for o in outs if o.ret.op == 'fld'}
                if len(outs) == len(fs) == 1:
                    fx.cc = fs.pop()
    terms.CC[0] = fx.cc

def unit(fx, row, seams=(), keep=None, args=None, st=None, **kw):
    counted_field(fx)
    co = kw.pop('check_obl', False)
    jc = kw.pop('jobcid', None)
    sp = kw.pop('split_paths', False)
    mr = kw.pop('maxrec', None)
    e = make_engine(fx, seams, keep, **kw)
    e.check_obl = co
    e.jobcid = jc
    e.split_paths = sp
    if mr:
        e.maxrec = mr
    a = args if args is not None else argnames(row)
    outs = e.run_inst(row['inst'], a, st)
    return Unit(e, outs, row['inst'], row)
