"""C15: which chunks an operation touches."""
from core import *
from core import walk
import units, re
from rules_write import judge, short
from rules_err import read_rows, read_unit, opname, self_of, result_of

PAYLOAD = ('read_raw', 'decompress', 'decode', 'decode_node', 'coll', 'read_from_shard', 'read_slice_from_shard', 'read_into_slice', 'from_node', 'create_lazy', 'read_lazy_from_stream')
EAGER = ('decode_node', 'coll', 'read_from_shard', 'read_slice_from_shard', 'read_into_slice', 'from_node')
OPEN = ('open', 'open_bytes', 'from_bytes', 'root_node')
META = ('children', 'get_child_by_index', 'offset', 'length', 'child_count', 'meta', 'payload_len', 'file_size', 'new', 'get_chunk', 'init')
POINT = ('get', 'get_lazy', 'first', 'last')

def touched(x):
    """The node or stream an event reads from."""
    k = x[0]
    if k in ('read_raw', 'children', 'child'):
        return x[1]
    if k in ('decode_node', 'coll', 'from_node', 'create_lazy', 'read_from_shard', 'read_slice_from_shard', 'read_into_slice', 'read_lazy_from_stream'):
        return x[2]
    if k == 'decode':
        return x[2]
    if k == 'decompress':
        return x[2]
    return None

def depth(t):
    """How many child references lie between the operation's own node and t."""
    n = 0
    for s in subterms(t):
        if s.op == 'child':
            d = 1 + depth(s.a[0])
            n = max(n, d)
        elif s.op == 'elem' and not any(q.op in ('payload', 'rd', 'dec') for q in subterms(s)):
            n = max(n, 1)
    return n

def own(t):
    return depth(t) == 0

def children_of(evs):
    """Distinct child nodes whose payload is read."""
    r = []
    for x in evs:
        if x[0] == 'read_raw' and not own(x[1]):
            k = strip_sites(x[1])
            if k not in r:
                r.append(k)
    return r

def in_loop(ev, kinds):
    for x in ev:
        if x[0] == 'loop':
            for c, e in x[3]:
                for y in walk(e):
                    if y[0] in kinds:
                        return y
    return None

def c15(ctx):
    for b in read_rows(ctx):
        m, tr, s = b['m'], b.get('tr'), self_of(ctx, b)
        group = None
        if tr == units.LAZY:
            group = m
        elif tr:
            group = 'lazy_next' if 'LazyIterator' in s and m == 'next' else 'next' if m == 'next' else None
        elif m in OPEN:
            group = 'open'
        elif m in META:
            group = 'meta'
        elif m in POINT:
            group = 'map' if 'MapPromise' in s else 'point'
        elif m in ('iter', 'iter_lazy'):
            group = m
        elif m in ('len', 'try_len', 'is_empty'):
            group = 'len'
        if group is None:
            continue
        if group == 'meta' and 'Iterator' in s:
            group = 'iter_lazy'
        u = read_unit(ctx, b)
        if u is None:
            continue
        n = opname(ctx, b)
        ctx.count('navigation operations')
        ctx.count('group ' + group)
        for o in u.outs:
            bad, v = result_of(o.ret)
            evs = list(walk(o.ev))
            reads = [x for x in evs if x[0] in PAYLOAD]
            w = murky(o.ev, o.facts)
            def no(good, what, x=None):
                judge(ctx, 'an operation reads only its own chunks', good or bool(w), '%s: %s' % (n, what), '%s %s%s' % (n, what, ': %s %s' % (x[0], short(touched(x) or UNIT)) if x else ''), path_text(o))
            if group in ('open', 'meta'):
                for x in reads:
                    no(False, 'reads or decodes a chunk payload', x)
                no(True, 'reads or decodes a chunk payload')
                continue
            if group == 'create_lazy':
                promise = v.op == 'agg' and 'Promise' in str(v.a[0])
                for x in reads:
                    if x[0] in EAGER:
                        no(False, 'decodes field data eagerly', x)
                    elif promise:
                        no(False, 'reads the chunk it should only name', x)
                    elif x[0] in ('read_raw', 'decode', 'decompress'):
                        no(own(touched(x)), 'reads a chunk other than its own', x)
                    elif x[0] == 'read_lazy_from_stream':
                        no(own(touched(x)), 'reads a chunk other than its own', x)
                no(True, 'reads a chunk other than its own')
            elif group == 'read_lazy_from_stream':
                for x in reads:
                    if x[0] in EAGER or x[0] == 'read_raw':
                        no(False, 'decodes field data eagerly' if x[0] in EAGER else 'reads the chunk of a field', x)
                    elif x[0] == 'decode':
                        no(not any(q.op in ('payload', 'child') for q in subterms(x[2])), 'decodes something other than its stream', x)
                no(True, 'decodes field data eagerly')
            elif group in ('point', 'map'):
                cs = children_of(evs)
                no(len(cs) <= 1, 'reads the payload of %d shards' % len(cs))
                for x in evs:
                    if x[0] == 'children':
                        no(not own(x[1]), 'opens every shard', x)
                y = in_loop(o.ev, ('child',))
                if y is not None and own(y[1]):
                    no(False, 'opens shards in a loop', y)
                for x in reads:
                    if x[0] == 'read_raw':
                        no(depth(x[1]) <= 1, 'reads a chunk below the shard', x)
                    elif m != 'get' and x[0] in EAGER and not (x[0] == 'decode_node' and own(x[2])):
                        no(False, 'decodes items eagerly', x)
                y = in_loop(o.ev, ('read_raw', 'decode_node', 'from_node', 'coll'))
                if y is not None:
                    no(False, 'reads chunks in a loop', y)
            elif group in ('iter', 'iter_lazy', 'len'):
                for x in reads:
                    no(own(touched(x)) and x[0] not in EAGER, 'reads more than the container', x)
                if group != 'iter_lazy':
                    for x in evs:
                        if x[0] == 'child':
                            no(False, 'opens shards', x)
                no(True, 'reads more than the container')
            elif group in ('next', 'lazy_next'):
                for x in reads:
                    if x[0] == 'read_raw':
                        no(depth(x[1]) <= 1, 'reads a chunk below the shard', x)
                    elif group == 'lazy_next' and x[0] in EAGER:
                        no(False, 'decodes items eagerly', x)
                no(True, 'reads a chunk below the shard')
    ctx.floor('navigation operations', 70)
    for g in ('open', 'create_lazy', 'read_lazy_from_stream', 'point', 'map', 'iter', 'iter_lazy', 'next', 'lazy_next'):
        ctx.floor('group ' + g, 1)
