"""C22: what a client may do with lazy handles, decided by the borrow checker."""
import re
from core import *
import witness

BORROW = {'E0505', 'E0597', 'E0515', 'E0716', 'E0506', 'E0503', 'E0521', 'E0373'}
TOP = "let m = file.root::<Top>().unwrap(); "
NODE = "let n = file.root_node().unwrap(); "
# (handle, statements before, expression): all borrow from `file`
HANDLES = [
    ('root_node', '', 'file.root_node().unwrap()'),
    ('ChunkNode clone', NODE, 'n.clone()'),
    ('children', NODE, 'n.children().unwrap()'),
    ('child of children', NODE, 'n.children().unwrap().pop().unwrap()'),
    ('get_child_by_index', NODE, 'n.get_child_by_index(0).unwrap()'),
    ('ChunkNode::iter', NODE, 'n.iter::<u8>().unwrap()'),
    ('ChunkNode::iter of derived items', NODE, 'n.iter::<Item>().unwrap()'),
    ('root', '', 'file.root::<Top>().unwrap()'),
    ('read_lazy', '', 'file.read_lazy::<Top>().unwrap()'),
    ('load_lazy', '', 'file.load_lazy::<Top>().unwrap()'),
    ('root of a vector', '', 'file.root::<Vec<Item>>().unwrap()'),
    ('root of a vector of scalars', '', 'file.root::<Vec<u8>>().unwrap()'),
    ('root of a map', '', 'file.root::<HashMap<u32, Item>>().unwrap()'),
    ('root of a scalar', '', 'file.root::<u64>().unwrap()'),
    ('root of a string', '', 'file.root::<String>().unwrap()'),
    ('scalar promise field', TOP, 'm.num'),
    ('string promise field', TOP, 'm.text'),
    ('mirror field', TOP, 'm.one'),
    ('collection promise field', TOP, 'm.items'),
    ('collection promise of a mirror field', TOP, 'm.one.data'),
    ('map promise field', TOP, 'm.table'),
    ('collection promise of scalars', TOP, 'm.packed'),
    ('get_lazy', TOP, 'm.items.get_lazy(0).unwrap()'),
    ('promise inside get_lazy', TOP, 'm.items.get_lazy(0).unwrap().data'),
    ('first', TOP, 'm.items.first().unwrap()'),
    ('last', TOP, 'm.items.last().unwrap()'),
    ('iter', TOP, 'm.items.iter().unwrap()'),
    ('iter of scalars', TOP, 'm.packed.iter().unwrap()'),
    ('iter_lazy', TOP, 'm.items.iter_lazy().unwrap()'),
    ('item of iter_lazy', TOP, 'm.items.iter_lazy().unwrap().next().unwrap().unwrap()'),
    ('map get_lazy', TOP, 'm.table.get_lazy(&1).unwrap()'),
    ('promise inside map get_lazy', TOP, 'm.table.get_lazy(&1).unwrap().unwrap().data'),
    ('ParcodePromise::new', NODE, 'ParcodePromise::<u64>::new(n)'),
    ('ParcodeCollectionPromise::new', NODE, 'ParcodeCollectionPromise::<Item>::new(n)'),
    ('ParcodeMapPromise::new', NODE, 'ParcodeMapPromise::<u32, Item>::new(n)'),
    ('create_lazy of a derived type', NODE, '<Top as ParcodeLazyRef<\'_>>::create_lazy(n).unwrap()'),
    ('create_lazy of a vector', NODE, '<Vec<Item> as ParcodeLazyRef<\'_>>::create_lazy(n).unwrap()'),
    ('create_lazy of a map', NODE, '<HashMap<u32, Item> as ParcodeLazyRef<\'_>>::create_lazy(n).unwrap()'),
    ('create_lazy of a scalar', NODE, '<u64 as ParcodeLazyRef<\'_>>::create_lazy(n).unwrap()'),
    ('boxed mirror', '', 'Box::new(file.root::<Top>().unwrap())'),
]
# values that do not depend on the file
EAGER = [
    ('load', '', 'file.load::<Top>().unwrap()'),
    ('load of a vector', '', 'file.load::<Vec<Item>>().unwrap()'),
    ('load of a map', '', 'file.load::<HashMap<u32, Item>>().unwrap()'),
    ('load of a scalar', '', 'file.load::<u64>().unwrap()'),
    ('inspect', '', 'file.inspect().unwrap()'),
    ('decode', NODE, 'n.decode::<String>().unwrap()'),
    ('decode_parallel_collection', NODE, 'n.decode_parallel_collection::<Item>().unwrap()'),
    ('ChunkNode::get', NODE, 'n.get::<Item>(0).unwrap()'),
    ('item of ChunkNode::iter', NODE, 'n.iter::<Item>().unwrap().next().unwrap().unwrap()'),
    ('from_node', NODE, '<Top as ParcodeNative>::from_node(&n).unwrap()'),
    ('promise load', TOP, 'm.num.load().unwrap()'),
    ('string promise load', TOP, 'm.text.load().unwrap()'),
    ('collection load', TOP, 'm.items.load().unwrap()'),
    ('collection get', TOP, 'm.items.get(0).unwrap()'),
    ('item of iter', TOP, 'm.items.iter().unwrap().next().unwrap().unwrap()'),
    ('map load', TOP, 'm.table.load().unwrap()'),
    ('map get', TOP, 'm.table.get(&1).unwrap()'),
    ('local field', TOP, 'm.name'),
    ('local field of a lazy item', TOP, 'm.items.get_lazy(0).unwrap().label'),
    ('error', '', 'file.load::<Top>().err()'),
]

def prog(pre, expr, closed):
    return ('#![allow(unused)]\nuse client::*;\nfn main() {\n    let file = open();\n    %s\n    let h = %s;\n%s    used(&h);\n}\n'
            % (pre, expr, '    drop(file);\n' if closed else ''))

def c22(ctx):
    progs = {}
    for kind, rows in (('h', HANDLES), ('e', EAGER)):
        for i, (n, pre, expr) in enumerate(rows):
            progs['%s%02d_open' % (kind, i)] = prog(pre, expr, False)
            progs['%s%02d_closed' % (kind, i)] = prog(pre, expr, True)
    res = witness.check(progs)
    r1, r2, r3 = 'a handle used after the file is closed does not compile', 'an eager value used after the file is closed compiles', 'no function returns a handle that is not bound to its file'
    for i, (n, pre, expr) in enumerate(HANDLES):
        a, b = res['h%02d_open' % i], res['h%02d_closed' % i]
        if a is not None:
            ctx.undec('%s: the program that keeps the file open does not compile: %s' % (n, a[0]))
            continue
        ctx.ob(r1)
        ctx.count('handles')
        if b is None:
            ctx.violate('%s: outlives the file' % n, 'a program that uses the result of %s after the file is closed compiles' % n, progs['h%02d_closed' % i])
        elif not any(c in BORROW for c, m in b):
            ctx.undec('%s: rejected for another reason: %s' % (n, b[0]))
        else:
            ctx.count('rejected programs')
    for i, (n, pre, expr) in enumerate(EAGER):
        a, b = res['e%02d_open' % i], res['e%02d_closed' % i]
        if a is not None:
            ctx.undec('%s: the program that keeps the file open does not compile: %s' % (n, a[0]))
            continue
        ctx.ob(r2)
        ctx.count('eager values')
        if b is not None:
            ctx.violate('%s: borrows the file' % n, 'the result of %s cannot be used after the file is closed: %s' % (n, b[0]), progs['e%02d_closed' % i])
    ctx.floor('handles', len(HANDLES) // 2)
    ctx.floor('eager values', len(EAGER) // 2)
    for r in ctx.fx.inv:
        if 'fn' in r and r['pub']:
            ctx.ob(r3)
            if re.search(r"(ChunkNode|Promise|Iterator|Lazy\w*)<'static", r.get('ret') or ''):
                ctx.violate('%s: returns a handle for ever' % r['fn'], '%s returns %s' % (r['fn'], r['ret']), r['sp'])
