//! Never executed: instantiates the public API of parcode on representative types so that the fact
//! extractor sees monomorphised code for every entry point and for derived types.
#![allow(dead_code, clippy::all)]
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::reader::{ChunkNode, ParcodeItem, ParcodeNative};
use parcode::rt::ParcodeLazyRef;
use parcode::visitor::ParcodeVisitor;
use parcode::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::Path;

/// Local fields only.
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Leafy {
    pub x: u32,
    pub name: String,
    pub y: u32,
}
/// Local and chunkable fields, interleaved, several of the same type.
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Inner {
    pub id: u32,
    #[parcode(chunkable)]
    pub data: Vec<u8>,
    pub tag: u32,
    #[parcode(chunkable)]
    pub more: Vec<u8>,
    pub label: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct OnlyRemote {
    #[parcode(chunkable)]
    pub first: u32,
    #[parcode(chunkable)]
    pub second: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Root {
    pub a: u64,
    #[parcode(chunkable)]
    pub bytes: Vec<u8>,
    pub b: u64,
    #[parcode(chunkable)]
    pub items: Vec<Inner>,
    #[parcode(chunkable)]
    pub leafs: Vec<Leafy>,
    pub c: String,
    #[parcode(chunkable)]
    pub inner: Inner,
    #[parcode(chunkable)]
    pub num: u64,
    #[parcode(chunkable)]
    pub text: String,
    #[parcode(chunkable, compression = "lz4")]
    pub lz: Vec<u64>,
    #[parcode(chunkable, compression = "LZ4")]
    pub lzp: u64,
    #[parcode(chunkable, compression = "lz4")]
    pub lzs: Inner,
    #[parcode(chunkable, compression = "none")]
    pub plain: Vec<u64>,
    #[parcode(compression = "zstd", chunkable)]
    pub zs: Vec<u64>,
    #[parcode(map)]
    pub m: HashMap<String, Leafy>,
    #[parcode(map, compression = "lz4")]
    pub mz: HashMap<u32, Leafy>,
    #[parcode(map, chunkable)]
    pub mi: HashMap<u32, Inner>,
    #[parcode(chunkable)]
    pub blob: HashMap<u32, u32>,
    #[parcode(chunkable, compression = "lz4")]
    pub blobz: HashMap<u32, u32>,
    pub inline_vec: Vec<u32>,
}
/// One chunkable field per attribute spelling the derive macro must treat alike.
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Spellings {
    #[parcode(chunkable)]
    #[parcode(compression = "lz4")]
    pub two_attrs: Vec<u64>,
    #[parcode(compression = "lz4")]
    pub not_chunked: Vec<u64>,
    #[parcode(map)]
    #[parcode(compression = "lz4")]
    pub map_two: HashMap<u32, Leafy>,
    #[parcode(chunkable, map, compression = "none")]
    pub map_none: HashMap<u32, Leafy>,
}

macro_rules! scalars { ($m:ident) => { $m!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 bool String); } }
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Scalars {
    pub l_u8: u8, pub l_u16: u16, pub l_u32: u32, pub l_u64: u64, pub l_u128: u128,
    pub l_i8: i8, pub l_i16: i16, pub l_i32: i32, pub l_i64: i64, pub l_i128: i128,
    pub l_f32: f32, pub l_f64: f64, pub l_bool: bool, pub l_string: String,
}

pub mod write {
    use super::*;
    #[cfg(not(target_arch = "wasm32"))]
    pub fn save(p: &Path, r: &Root) -> Result<()> { Parcode::save(p, r) }
    pub fn write(w: Vec<u8>, r: &Root) -> Result<()> { Parcode::write(w, r) }
    pub fn serialize(r: &Root) -> Result<Vec<u8>> { Parcode::serialize(r) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn save_sync(p: &Path, r: &Root) -> Result<()> { Parcode::save_sync(p, r) }
    pub fn write_sync(w: Vec<u8>, r: &Root) -> Result<()> { Parcode::write_sync(w, r) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn opt_save(o: &ParcodeOptions, p: &Path, r: &Root) -> Result<()> { o.save(p, r) }
    pub fn opt_write(o: &ParcodeOptions, w: Vec<u8>, r: &Root) -> Result<()> { o.write(w, r) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn opt_save_sync(o: &ParcodeOptions, p: &Path, r: &Root) -> Result<()> { o.save_sync(p, r) }
    pub fn opt_write_sync(o: &ParcodeOptions, w: Vec<u8>, r: &Root) -> Result<()> { o.write_sync(w, r) }
    pub fn builder() -> ParcodeOptions { Parcode::builder() }
    pub fn compression(o: ParcodeOptions, e: bool) -> ParcodeOptions { o.compression(e) }
}
pub mod visit {
    use super::*;
    pub fn root<'a>(r: &'a Root, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn spellings<'a>(r: &'a Spellings, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn only_remote<'a>(r: &'a OnlyRemote, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn only_remote_vec<'a>(r: &'a Vec<OnlyRemote>, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn scalars_vec<'a>(r: &'a Vec<Scalars>, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn vec_inner<'a>(r: &'a Vec<Inner>, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn vec_u8<'a>(r: &'a Vec<u8>, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn map_inner<'a>(r: &'a HashMap<u32, Inner>, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
    pub fn reference<'a>(r: &'a &'a Root, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { <&Root as ParcodeVisitor>::visit(r, g, p, c) }
    pub fn reference_job<'a>(r: &'a &'a Root, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> { <&Root as ParcodeVisitor>::create_job(r, c) }
    pub fn vec_job<'a>(r: &'a Vec<Inner>, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> { r.create_job(c) }
    pub fn map_job<'a>(r: &'a HashMap<u32, u32>, c: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> { r.create_job(c) }
    pub fn inlined<'a>(r: &'a Inner, g: &mut TaskGraph<'a>, p: ChunkId, c: Option<JobConfig>) { r.visit_inlined(g, p, c) }
    pub fn inlined_u32<'a>(r: &'a u32, g: &mut TaskGraph<'a>, p: ChunkId, c: Option<JobConfig>) { r.visit_inlined(g, p, c) }
    pub fn shallow(r: &Root, w: &mut Vec<u8>) -> Result<()> { r.serialize_shallow(w) }
    pub fn shallow_inner(r: &Inner, w: &mut Vec<u8>) -> Result<()> { r.serialize_shallow(w) }
    pub fn slice_inner(r: &[Inner], w: &mut Vec<u8>) -> Result<()> { Inner::serialize_slice(r, w) }
    pub fn slice_root(r: &[Root], w: &mut Vec<u8>) -> Result<()> { Root::serialize_slice(r, w) }
    pub fn shallow_spell(r: &Spellings, w: &mut Vec<u8>) -> Result<()> { r.serialize_shallow(w) }
    pub fn shallow_or(r: &OnlyRemote, w: &mut Vec<u8>) -> Result<()> { r.serialize_shallow(w) }
    pub fn graph_len(g: &TaskGraph<'_>) -> (usize, bool) { (g.len(), g.is_empty()) }
}
pub mod read {
    use super::*;
    #[cfg(not(target_arch = "wasm32"))]
    pub fn open(p: &Path) -> Result<ParcodeFile> { Parcode::open(p) }
    pub fn open_bytes(d: Vec<u8>) -> Result<ParcodeFile> { Parcode::open_bytes(d) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn file_open(p: &Path) -> Result<ParcodeFile> { ParcodeFile::open(p) }
    pub fn from_bytes(d: Vec<u8>) -> Result<ParcodeFile> { ParcodeFile::from_bytes(d) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn load(p: &Path) -> Result<Root> { Parcode::load(p) }
    pub fn load_bytes(d: Vec<u8>) -> Result<Root> { Parcode::load_bytes(d) }
    pub fn file_load(f: &ParcodeFile) -> Result<Root> { f.load() }
    pub fn file_load_inner(f: &ParcodeFile) -> Result<Inner> { f.load() }
    pub fn file_load_scalars(f: &ParcodeFile) -> Result<Vec<Scalars>> { f.load() }
    pub fn file_load_spellings(f: &ParcodeFile) -> Result<Spellings> { f.load() }
    pub fn file_load_only_remote(f: &ParcodeFile) -> Result<OnlyRemote> { f.load() }
    pub fn file_load_vec(f: &ParcodeFile) -> Result<Vec<Inner>> { f.load() }
    pub fn file_load_map(f: &ParcodeFile) -> Result<HashMap<String, Leafy>> { f.load() }
    pub fn file_root<'a>(f: &'a ParcodeFile) -> Result<RootLazy<'a>> { f.root::<Root>() }
    pub fn file_load_lazy<'a>(f: &'a ParcodeFile) -> Result<RootLazy<'a>> { f.load_lazy::<Root>() }
    pub fn file_read_lazy<'a>(f: &'a ParcodeFile) -> Result<RootLazy<'a>> { f.read_lazy::<Root>() }
    pub fn file_root_spellings<'a>(f: &'a ParcodeFile) -> Result<SpellingsLazy<'a>> { f.root::<Spellings>() }
    pub fn file_root_or<'a>(f: &'a ParcodeFile) -> Result<OnlyRemoteLazy<'a>> { f.root::<OnlyRemote>() }
    pub fn file_root_vec<'a>(f: &'a ParcodeFile) -> Result<ParcodeCollectionPromise<'a, Inner>> { f.root::<Vec<Inner>>() }
    pub fn file_root_map<'a>(f: &'a ParcodeFile) -> Result<ParcodeMapPromise<'a, u32, Inner>> { f.root::<HashMap<u32, Inner>>() }
    pub fn file_root_node<'a>(f: &'a ParcodeFile) -> Result<ChunkNode<'a>> { f.root_node() }
    pub fn file_size(f: &ParcodeFile) -> u64 { f.file_size() }
    pub fn file_inspect(f: &ParcodeFile) -> Result<parcode::inspector::DebugReport> { f.inspect() }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn inspect(p: &Path) -> Result<parcode::inspector::DebugReport> { Parcode::inspect(p) }
    pub fn inspect_bytes(d: Vec<u8>) -> Result<parcode::inspector::DebugReport> { Parcode::inspect_bytes(d) }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn inspector(p: &Path) -> Result<parcode::inspector::DebugReport> { parcode::inspector::ParcodeInspector::inspect(p) }
    pub fn report_fmt(r: &parcode::inspector::DebugReport) -> String { format!("{}", r) }
    pub fn report_display(r: &parcode::inspector::DebugReport, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(r, f) }
}
pub mod node {
    use super::*;
    pub fn read_raw<'a>(n: &ChunkNode<'a>) -> Result<std::borrow::Cow<'a, [u8]>> { n.read_raw() }
    pub fn children<'a>(n: &ChunkNode<'a>) -> Result<Vec<ChunkNode<'a>>> { n.children() }
    pub fn child<'a>(n: &ChunkNode<'a>, i: usize) -> Result<ChunkNode<'a>> { n.get_child_by_index(i) }
    pub fn decode(n: &ChunkNode<'_>) -> Result<Leafy> { n.decode() }
    pub fn coll_u8(n: &ChunkNode<'_>) -> Result<Vec<u8>> { n.decode_parallel_collection() }
    pub fn coll_u64(n: &ChunkNode<'_>) -> Result<Vec<u64>> { n.decode_parallel_collection() }
    pub fn coll_inner(n: &ChunkNode<'_>) -> Result<Vec<Inner>> { n.decode_parallel_collection() }
    pub fn len(n: &ChunkNode<'_>) -> u64 { n.len() }
    pub fn is_empty(n: &ChunkNode<'_>) -> bool { n.is_empty() }
    pub fn get_u8(n: &ChunkNode<'_>, i: usize) -> Result<u8> { n.get(i) }
    pub fn get_inner(n: &ChunkNode<'_>, i: usize) -> Result<Inner> { n.get(i) }
    pub fn iter<'a>(n: ChunkNode<'a>) -> Result<parcode::reader::ChunkIterator<'a, Inner>> { n.iter() }
    pub fn iter_next<'a>(i: &mut parcode::reader::ChunkIterator<'a, Inner>) -> Option<Result<Inner>> { i.next() }
    pub fn iter_u8<'a>(n: ChunkNode<'a>) -> Result<parcode::reader::ChunkIterator<'a, u8>> { n.iter() }
    pub fn iter_next_u8<'a>(i: &mut parcode::reader::ChunkIterator<'a, u8>) -> Option<Result<u8>> { i.next() }
    pub fn iter_hint<'a>(i: &parcode::reader::ChunkIterator<'a, Inner>) -> (usize, Option<usize>) { i.size_hint() }
    pub fn props(n: &ChunkNode<'_>) -> (u64, u64, u32, parcode::format::MetaByte, u64) { (n.offset(), n.length(), n.child_count(), n.meta(), n.payload_len()) }
}
pub mod item {
    use super::*;
    type C<'x, 'y> = std::io::Cursor<&'y [u8]>;
    type I<'x> = std::vec::IntoIter<ChunkNode<'x>>;
    pub fn inner(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Inner> { Inner::read_from_shard(r, c) }
    pub fn root(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Root> { Root::read_from_shard(r, c) }
    pub fn spell(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Spellings> { Spellings::read_from_shard(r, c) }
    pub fn inner_slice(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Vec<Inner>> { Inner::read_slice_from_shard(r, c) }
    pub fn u8_slice(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Vec<u8>> { u8::read_slice_from_shard(r, c) }
    pub fn u64_slice(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>) -> Result<Vec<u64>> { u64::read_slice_from_shard(r, c) }
    pub fn inner_into(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>, d: &mut [std::mem::MaybeUninit<Inner>]) -> Result<usize> { Inner::read_into_slice(r, c, d) }
    pub fn u64_into(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'_>, d: &mut [std::mem::MaybeUninit<u64>]) -> Result<usize> { u64::read_into_slice(r, c, d) }
    pub fn inner_lazy<'a>(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'a>) -> Result<InnerLazy<'a>> { Inner::read_lazy_from_stream(r, c) }
    pub fn root_lazy<'a>(r: &mut std::io::Cursor<&[u8]>, c: &mut I<'a>) -> Result<RootLazy<'a>> { Root::read_lazy_from_stream(r, c) }
}
pub mod promise {
    use super::*;
    type Coll<'a> = ParcodeCollectionPromise<'a, Inner>;
    type MapL<'a> = ParcodeMapPromise<'a, String, Leafy>;
    type MapI<'a> = ParcodeMapPromise<'a, u32, Inner>;
    pub fn value(p: &ParcodePromise<'_, u64>) -> Result<u64> { p.load() }
    pub fn coll_load(p: &Coll<'_>) -> Result<Vec<Inner>> { p.load() }
    pub fn coll_get(p: &Coll<'_>, i: usize) -> Result<Inner> { p.get(i) }
    pub fn coll_len(p: &Coll<'_>) -> usize { p.len() }
    pub fn coll_is_empty(p: &Coll<'_>) -> bool { p.is_empty() }
    pub fn coll_iter<'a>(p: &Coll<'a>) -> Result<usize> { Ok(p.iter()?.count()) }
    pub fn coll_get_lazy<'a>(p: &Coll<'a>, i: usize) -> Result<InnerLazy<'a>> { p.get_lazy(i) }
    pub fn coll_first<'a>(p: &Coll<'a>) -> Result<Option<InnerLazy<'a>>> { p.first() }
    pub fn coll_last<'a>(p: &Coll<'a>) -> Result<Option<InnerLazy<'a>>> { p.last() }
    pub fn coll_iter_lazy<'a>(p: &Coll<'a>) -> Result<parcode::rt::ParcodeLazyIterator<'a, Inner>> { p.iter_lazy() }
    pub fn lazy_next<'a>(i: &mut parcode::rt::ParcodeLazyIterator<'a, Inner>) -> Option<Result<InnerLazy<'a>>> { i.next() }
    pub fn lazy_hint<'a>(i: &parcode::rt::ParcodeLazyIterator<'a, Inner>) -> (usize, Option<usize>) { i.size_hint() }
    pub fn lazy_len<'a>(i: &parcode::rt::ParcodeLazyIterator<'a, Inner>) -> usize { i.len() }
    pub fn map_load(p: &MapL<'_>) -> Result<HashMap<String, Leafy>> { p.load() }
    pub fn map_get(p: &MapL<'_>, k: &String) -> Result<Option<Leafy>> { p.get(k) }
    pub fn map_get_lazy<'a>(p: &MapI<'a>, k: &u32) -> Result<Option<InnerLazy<'a>>> { p.get_lazy(k) }
    pub fn mapl_get_lazy<'a>(p: &MapL<'a>, k: &String) -> Result<Option<LeafyLazy<'a>>> { p.get_lazy(k) }
    pub fn mapi_load(p: &MapI<'_>) -> Result<HashMap<u32, Inner>> { p.load() }
    pub fn mapi_get(p: &MapI<'_>, k: &u32) -> Result<Option<Inner>> { p.get(k) }
    pub fn field_lazy<'a>(r: &RootLazy<'a>, i: usize) -> Result<InnerLazy<'a>> { r.items.get_lazy(i) }
}
pub mod parts {
    use super::*;
    use parcode::compression::*;
    use parcode::format::*;
    pub fn childref_to(c: &ChildRef) -> [u8; 16] { c.to_bytes() }
    pub fn childref_from(b: &[u8]) -> Result<ChildRef> { ChildRef::from_bytes(b) }
    pub fn header_to(h: &GlobalHeader) -> [u8; 26] { h.to_bytes() }
    pub fn header_new(o: u64, l: u64) -> GlobalHeader { GlobalHeader::new(o, l) }
    pub fn meta_new(c: bool, m: u8) -> MetaByte { MetaByte::new(c, m) }
    pub fn meta_from(b: u8) -> MetaByte { MetaByte::from_byte(b) }
    pub fn meta_parts(m: &MetaByte) -> (bool, u8, u8) { (m.is_chunkable(), m.compression_method(), m.as_u8()) }
    pub fn registry() -> CompressorRegistry { CompressorRegistry::new() }
    pub fn registry_get<'r>(r: &'r CompressorRegistry, i: u8) -> Result<&'r dyn Compressor> { r.get(i) }
    pub fn registry_reg(r: &mut CompressorRegistry, c: Box<dyn Compressor>) { r.register(c) }
    pub fn none_id() -> u8 { NoCompression.id() }
    pub fn none_c(d: &[u8]) -> Result<std::borrow::Cow<'_, [u8]>> { NoCompression.compress(d) }
    pub fn none_d(d: &[u8]) -> Result<std::borrow::Cow<'_, [u8]>> { NoCompression.decompress(d) }
    pub fn none_a(d: &[u8], o: &mut Vec<u8>) -> Result<()> { NoCompression.compress_append(d, o) }
    #[cfg(feature = "lz4_flex")]
    pub fn lz4_id() -> u8 { Lz4Compressor.id() }
    #[cfg(feature = "lz4_flex")]
    pub fn lz4_c(d: &[u8]) -> Result<std::borrow::Cow<'_, [u8]>> { Lz4Compressor.compress(d) }
    #[cfg(feature = "lz4_flex")]
    pub fn lz4_d(d: &[u8]) -> Result<std::borrow::Cow<'_, [u8]>> { Lz4Compressor.decompress(d) }
    #[cfg(feature = "lz4_flex")]
    pub fn lz4_a(d: &[u8], o: &mut Vec<u8>) -> Result<()> { Lz4Compressor.compress_append(d, o) }
    pub fn seq_new(w: Vec<u8>) -> parcode::io::SeqWriter<Vec<u8>> { parcode::io::SeqWriter::new(w) }
    pub fn seq_write(w: &parcode::io::SeqWriter<Vec<u8>>, b: &[u8]) -> Result<u64> { w.write_all(b) }
    pub fn seq_flush(w: &parcode::io::SeqWriter<Vec<u8>>) -> Result<()> { w.flush() }
    pub fn err_from(e: std::io::Error) -> ParcodeError { ParcodeError::from(e) }
    pub fn err_source(e: &ParcodeError) -> Option<&(dyn std::error::Error + 'static)> { std::error::Error::source(e) }
    pub fn err_fmt(e: &ParcodeError) -> String { format!("{}", e) }
}
macro_rules! per_scalar { ($($t:ident)*) => { pub mod scalar { use super::*; $(
    #[allow(non_snake_case)] pub mod $t { use super::*; #[allow(unused_imports)] use std::string::String;
        pub fn visit<'a>(r: &'a $t, g: &mut TaskGraph<'a>, p: Option<ChunkId>, c: Option<JobConfig>) { r.visit(g, p, c) }
        pub fn shallow(r: &$t, w: &mut Vec<u8>) -> Result<()> { r.serialize_shallow(w) }
        pub fn slice(r: &[$t], w: &mut Vec<u8>) -> Result<()> { <$t>::serialize_slice(r, w) }
        pub fn native(n: &ChunkNode<'_>) -> Result<$t> { <$t as ParcodeNative>::from_node(n) }
        pub fn item(r: &mut std::io::Cursor<&[u8]>, c: &mut std::vec::IntoIter<ChunkNode<'_>>) -> Result<$t> { <$t>::read_from_shard(r, c) }
        pub fn into(r: &mut std::io::Cursor<&[u8]>, c: &mut std::vec::IntoIter<ChunkNode<'_>>, d: &mut [std::mem::MaybeUninit<$t>]) -> Result<usize> { <$t>::read_into_slice(r, c, d) }
    } )* } } }
scalars!(per_scalar);
macro_rules! per_lazy { ($($t:ident)*) => { pub mod lazy_scalar { use super::*; $(
    #[allow(non_snake_case)] pub mod $t { use super::*; #[allow(unused_imports)] use std::string::String;
        pub fn lazy<'a>(n: ChunkNode<'a>) -> Result<ParcodePromise<'a, $t>> { <$t as ParcodeLazyRef>::create_lazy(n) }
        pub fn promise(p: &ParcodePromise<'_, $t>) -> Result<$t> { p.load() }
        pub fn stream<'a>(r: &mut std::io::Cursor<&[u8]>, c: &mut std::vec::IntoIter<ChunkNode<'a>>) -> Result<ParcodePromise<'a, $t>> { <$t as ParcodeLazyRef>::read_lazy_from_stream(r, c) }
    } )* } } }
per_lazy!(u8 u16 u32 u64 u128 i128 i8 i16 i32 i64 f32 f64 bool String);
