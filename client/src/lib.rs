//! Types for client programs that are only type checked (see ../../sa/witness.py).
pub use parcode::reader::{ChunkNode, ParcodeItem, ParcodeNative};
pub use parcode::rt::{ParcodeCollectionPromise, ParcodeLazyRef, ParcodeMapPromise, ParcodePromise};
pub use parcode::{Parcode, ParcodeFile, ParcodeObject};
use serde::{Deserialize, Serialize};
pub use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Item {
    pub id: u32,
    #[parcode(chunkable)]
    pub data: Vec<u8>,
    pub label: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, ParcodeObject)]
pub struct Top {
    pub a: u64,
    pub name: String,
    #[parcode(chunkable)]
    pub num: u64,
    #[parcode(chunkable)]
    pub text: String,
    #[parcode(chunkable)]
    pub one: Item,
    #[parcode(chunkable)]
    pub items: Vec<Item>,
    #[parcode(map)]
    pub table: HashMap<u32, Item>,
    #[parcode(chunkable, compression = "lz4")]
    pub packed: Vec<u64>,
}
pub fn open() -> ParcodeFile {
    Parcode::open_bytes(Vec::new()).unwrap()
}
pub fn used<T>(_: &T) {}
