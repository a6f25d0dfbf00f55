"""What each check does, in words: manifest technique and level note, evidence text and assumptions."""
AI = 'path-sensitive abstract interpretation of the compiled MIR'
BASE = ['the contracts of std, rayon, bincode, lz4_flex, memmap2 and twox_hash used by the models in sa/models.py',
        'rustc\'s MIR of the probe crate\'s instantiations is what downstream crates compile']
NOTE = 'Decides every path of the compiled code up to the modelled contracts of std and of the third-party crates; nothing is executed or sampled.'
TECH = {
 'C24': (AI + ': the rules of the other properties on the MIR of every configuration, compared between neighbouring configurations; builds of the whole interface per configuration', NOTE),
 'C23': (AI + ': every path of the inspector against the chunk accessors, child by child', NOTE),
 'C12': (AI + ': bounds of allocation sizes and of appending loops by what the file backs, progress of child references, recursion in the call graph', NOTE + ' The known finding is reported, not suppressed.'),
 'C11': (AI + ': proof of every panic condition (overflow, bounds, division, unwrap, explicit panic) on every path of every read operation', NOTE + ' Relations between the fields of a chunk handle and of the iterators are proved as inductive invariants, not assumed.'),
 'C22': ('compile-fail witnesses with compiling twins, decided by the type and borrow checker', 'The compiler decides each program; the set of programs covers every public way to obtain a handle or an eager value.'),
 'C21': ('effect analysis over the call graph of the compiled program, ownership analysis of the handle types, Send/Sync from the trait solver', NOTE),
 'C15': (AI + ': read footprint (which chunks are read, decompressed or decoded) of every navigation operation', NOTE),
 'C14': (AI + ': fate of every failed read step on every path of every read operation', NOTE + ' A known finding (infallible len/is_empty) is reported, not suppressed.'),
 'C01': (AI + ': error propagation and flush typestate on every path of the save entry points', NOTE),
 'C02': (AI + ': event order and data flow of the trailer', NOTE + ' Worker interleavings are covered because the argument is per critical section.'),
 'C03': (AI + ': exactly-once and slot-assignment rules on every path of the job scheduler, and linking rules on every visitor', NOTE + ' The happens-before of the dependency counter is argued from its atomic protocol; memory orderings are not checked.'),
 'C04': (AI + ': critical-section analysis of the writer lock', NOTE),
 'C05': (AI + ': byte-layout terms of writer and reader compared with the documented layout', NOTE + ' Meta bytes are enumerated exhaustively.'),
 'C06': (AI + ': equivalence of the symbolic chunk contents of both executors', NOTE),
 'C07': (AI + ': agreement of recorded algorithm id, applied compressor and selected decompressor', NOTE + ' Losslessness of lz4_flex itself is not claimed.'),
 'C08': (AI + ': data flow of the option and of the per-field configuration into every chunk', NOTE),
 'C09': (AI + ': shard ranges and the run-length fold as terms, with a loop invariant', NOTE),
 'C10': (AI + ': typestate of raw load buffers and an inductive tiling proof over the extracted job recurrences', NOTE),
 'C13': (AI + ': path conditions of every accepting path of the openers', NOTE),
 'C16': (AI + ': inductive proof of the index arithmetic over the extracted run walk', NOTE + ' The known finding is reported, not suppressed.'),
 'C17': (AI + ': field-layout terms of every generated writer compared with every generated reader', NOTE + ' Derived types are represented by the probe structs.'),
 'C18': (AI + ': hash, shard choice and key comparison of every lookup path compared with the writer\'s terms', NOTE + ' The known finding is reported, not suppressed.'),
 'C19': (AI + ': distribution loop, shard layout and load loop as terms', NOTE),
 'C20': (AI + ': iterators as transition systems over their fields', NOTE),
 'C25': (AI + ': agreement of encoding type and configuration over every path of the 14 scalar types', NOTE),
 'C26': ('inventory of unchecked operations over the type-checked program (THIR) of every function, plus ' + AI + ' of the operations that use them', NOTE + ' The known finding is reported, not suppressed.'),
 'C27': (AI + ': origin and category of every returned error', NOTE),
}
TEXT = {
 'C24': ('Every combination of the features parallel, mmap and lz4_flex, and the target class without files (target_arch wasm32 set by cfg on the host), is compiled together with a client of the whole public interface; a configuration that does not build, lacks a public operation (other than those of an algorithm left out, or on paths and files where there are none) or changes a signature is a violation. The rules that state what each write and read operation does (C01-C10, C13-C20, C23, C25, C27; thorough adds C11, C12, C21, C26) are decided on the MIR of each configuration; a rule that fails in one configuration and holds in one that differs only by parallel, mmap or the target class, or fails only without lz4_flex, is a violation.',
         ['32-bit usize of wasm32 is not modelled: the target class is selected by cfg on a 64-bit host', 'third-party crates behave the same in every configuration']),
 'C23': ('Every successful path of inspect (of a path, of bytes, of an open file) and of the recursive inspection of a chunk: each field of the report entry must be the value the chunk accessors give for that chunk (and those are checked against the file layout), the algorithm name must fit every algorithm number possible on the path, '
         'the children must be one unconditional entry per child index, in order, made by inspecting that child, and the statistics must be the recorded totals (the number of shards the sum of the recorded repeats) whenever the payload is a container. ', BASE + ['the text around the numbers of a report is not judged']),
 'C12': ('Every allocation with a computed size on a read path must be fallible or bounded, on every path that reaches it, by a constant factor of data that exists (payload, source or recorded chunk length, which is proved to lie inside the file). '
         'Every loop that appends to a list must read something that can run out in each appending round, or be bounded the same way. Every operation that makes a chunk handle from another must prove that the new chunk ends before the old one starts, '
         'so that following references terminates on every file; recursive functions found in the call graph must recurse on a child. A failed proof is a violation only with file contents of a few kilobytes that drive the size. ', BASE),
 'C11': ('Every condition under which the compiled code of a read operation panics (checked arithmetic, division, remainder, index, slice bounds, copy lengths, chunks of size zero, unwrap/expect, explicit panics and unreachable) is an obligation that must be refuted '
         'on every path that reaches it, with file contents, positions and arguments symbolic. Used: relations between the fields of a chunk handle proved where handles are built, loop invariants proved by induction, iterator states proved unreachable by induction over their public methods. '
         'An obligation that is not met is a violation only with file contents that reach it. ', BASE + ['sums of 32-bit counts over a list that fits in memory fit 64 bits']),
 'C22': ('For every way to get a lazy mirror, promise, chunk handle, iterator or borrowed payload, two client programs that differ in one statement are type checked against the current source: the one that keeps the file open must compile, the one that drops the file before the last use of the handle must be rejected with a borrow error. '
         'Every eagerly loaded value must be usable after the file was dropped. No public function of the library may return a handle with the lifetime \'static. ', BASE + ['the borrow checker of the installed compiler']),
 'C21': ('From every read operation (file, chunk handle, promises, iterators, read traits, inspector, generated readers) the call graph of the compiled program is followed, through closures, function values and dynamic calls. No function on it may call anything that changes the file system, opens or maps the file for writing, or changes the process; none may use a mutable static or change thread local state. '
         'The types of all shared handles are searched through every field, container and trait object for state that can change behind a shared reference: with none, reads through shared handles cannot change anything (raw pointers are the business of C26); with one, every mutating call of that kind on a read path is a violation. '
         'Every handle type must be Send and Sync as the compiler\'s trait solver sees it, and no result may contain a value of time, environment, thread identity or randomness. ', BASE + ['Mutex, RefCell, Cell, RwLock, atomics and thread locals are the ways to change state behind a shared reference in safe code']),
 'C26': ('Every function, closure and macro expansion of the library (instantiated or not) and the code the derive macro generates is searched for operations the compiler does not check: unsafe calls, raw pointer dereferences, pointer-making casts, unions, mutable statics, assembly, unsafe impls. Each must belong to bulk initialisation or memory mapping; type punning, unchecked indexing, unchecked strings and the like are violations. '
         'The bulk operations are discharged by the rules of C10 on every path (room reserved before a length is set, disjoint gap-free fills inside the buffer, complete before it becomes a vector of the same type, copies inside source and destination and of the slot type). References made from raw pointers must not leave the call, pointers must not be made from numbers a client of a safe public function chooses, and initialisation must not be taken on trust from an overridable safe trait method (known finding). ', BASE + ['the mapped file is not modified by other processes while open (documented by the library)']),
 'C16': ('get, get_lazy, first and last are evaluated symbolically over a run table of symbolic length: on every successful path the shard index and the position inside the shard are terms over the loop variables of the run walk. They are proved by induction over the runs (base = sum of count*repeat so far, index within the run, item = rest of a division by the count or a bounded remainder) to address exactly the index-th item, '
         'the item is taken from the start of that shard with that shard\'s children, lazy access skips exactly that many items, and None is returned only for a recorded length of zero. The extracted equations are also evaluated for a set of run tables and all their indices (valid and beyond the end); a violation always comes with such a table and index. ', BASE + ['files written by this library have no shard without items']),
 'C20': ('Both iterators as state machines: every path of next is a transition over the iterator\'s fields. Shards are loaded one after the other from the current position and only when the current shard is finished, each item is the next of its shard, the stream position, children and per-shard count move by exactly that item, the remaining count (size_hint/len, or the test that ends iteration) drops by one per item, '
         'None is returned only when the count is used up or all shards are, and every constructor starts at the first shard with the recorded total; len and is_empty return the recorded total. ', BASE),
 'C10': ('Every read operation is searched for raw buffers (set_len, slices and vectors made from raw parts). On each path that turns such a buffer into a vector: the length was set only within reserved room, the vector is the whole buffer, and before that the buffer was filled completely - by one reader call that returned exactly the buffer length, or by a loop whose jobs are expanded to a loop nest: '
         'the start positions are proved by induction on the nest to be the prefix sums of the counts from 0 to the buffer length (disjoint, gap-free, inside the buffer), shard indices to step by one, and every iteration to fail unless the shard filled exactly its count. '
         'Every instantiated read_into_slice must, on every successful path, have written slots 0..n once each before reporting n. A failed proof is a violation only with a concrete run table that breaks the tiling. ', BASE),
 'C15': ('For every path of every opening, navigation, lazy and point-access operation: the set of chunks whose payload is read, decompressed or decoded. Openers and metadata accessors touch none; creating a promise touches none; a lazy mirror touches its own chunk and, for nested mirrors, delegates to their create_lazy; '
         'get, get_lazy, first, last and the map lookups touch the container and at most one shard, outside any loop; iterators touch the container when created and one shard level when advanced; no lazy operation calls an eager decoder. ', BASE),
 'C14': ('Every read operation (methods of files, chunk nodes, promises and iterators, every instantiated implementation of the three read traits, and the decompressors) is evaluated on every path, with each fallible step (reading a chunk, decompressing, following a child, decoding) forked into success and failure: an outcome that passed a failed step, inside or outside a loop, must be an error; '
         'an outcome that claims there is nothing (None, empty collection) without a failure must lie on a path whose conditions say so (empty payload, zero recorded count, no children, or all records searched). ', BASE),
 'C09': ('For every vector instantiation of the probe and every path of its visitor: the items of shard k are computed as a range of the vector; the ranges must tile it (recognised in closed form, refuted only by an arithmetic counterexample to the extracted terms), '
         'the run table built by the fold over the shards must satisfy the invariant expand(runs so far + current run) = lengths of the shards so far at entry, at every step and at the end, the total must be the length, every item must be visited below the shard that holds it in item order, '
         'and the slice writers must write the count and every item in order. ', BASE),
 'C19': ('For every map instantiation of the probe: the loop that distributes entries over shards is summarised (every entry appended to exactly one bucket, no early exit), each shard\'s bytes are computed as a term (count, padding, hashes, offsets, data) and the '
         'reader\'s load is compared with it: the counts, strides and positions it reads, the configuration of its decodes, and that every shard and every entry is visited. ', BASE + ['twox_hash is a function of seed and bytes']),
 'C18': ('For every map instantiation of the probe: get and get_lazy are evaluated symbolically over a shard with a symbolic number of entries; the hash they compute must be the writer\'s for the same key, the shard they open the one the writer chose, '
         'the skip of an entry must need an unequal hash or an unequal key, and the value must be decoded at the entry\'s own position. ', BASE + ['twox_hash is a function of seed and bytes']),
 'C17': ('For every derived type of the probe (locals and chunkable fields interleaved, only remote, only local, many fields of one type, every attribute spelling): the sequence of encodings every writer emits (node job, configured job, serialize_shallow, serialize_slice) and the order in which visit and visit_inlined create children are computed as terms; '
         'every reader (from_node, read_from_shard, create_lazy, read_lazy_from_stream, read_into_slice) must decode field k at the position behind fields 0..k-1 with the same type and configuration and take chunkable field j from child j, and leave the stream behind the last local field. The derive macro is one generic code path over fields, so these instances exercise every arm of it. ',
         BASE + ['the derive macro treats field k of a struct of any size as it does in the probe structs']),
 'C25': ('For each of the 14 built-in scalar types: what is written alone, configured, inside a collection and as a slice, and what is read from its own chunk, from a collection, as a slice and through a promise; each must be the same encoding (type and configuration) of the whole value. ', BASE),
 'C05': ('Writer: the byte sequence of every chunk (payload, child table, count, meta byte), of the trailer and of the container headers is computed as a term from the compiled code and compared with the documented layout. '
         'Reader: the chunk accessors are evaluated on every path from every opener to the root and from a node to its child at a symbolic index; every field must be the read at the documented position, width and byte order. '
         'MetaByte is evaluated for all 256 bytes, ChildRef and the trailer symbolically; children() is compared with get_child_by_index. ', BASE),
 'C13': ('Every accepting path of open, open_bytes, ParcodeFile::open and from_bytes: its path condition must imply length >= 26 and pin the four magic and two version bytes at the end of the data to their values; every rejecting path returns the Format category; '
         'the root node is the chunk named by the trailer and its path condition implies that it lies inside the data and is not empty. ', BASE),
}
