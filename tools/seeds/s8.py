ID="param-array-indexed-offsets-read"; PROP="C15"
NEEDS="an indexed offset on an array of parameterized elements whose size is not a multiple of 8 bits"
BREAKS="the reader does not align the elements"
EDITS=[("crates/zserio-rs-build/src/internal/generator/decode.rs",'let index_offset = match use_indexed_offset {','let index_offset = match use_indexed_offset && !has_type_parameters {')]
SCHEMA={"demo.zs":"""
package demo;
struct Item(uint8 k) { bit:5 a; };
struct Holder {
    uint8 k;
    uint32 offsets[2];
    bit:3 x;
offsets[@index]:
    Item(k) items[2];
};
"""}
MAIN='''
mod gen;
use gen::demo::*;
fn main() {
    let h = Holder { k: 1, offsets: vec![10, 11], x: 5, items: vec![Item { k: 1, a: 17 }, Item { k: 1, a: 9 }] };
    let bytes = zserio::to_bytes(&h).unwrap();
    assert_eq!(bytes, vec![1, 0, 0, 0, 10, 0, 0, 0, 11, 5 << 5, 17 << 3, 9 << 3]);
    let back: Holder = zserio::from_bytes(&bytes).unwrap();
    assert_eq!(back, h);
}
'''
