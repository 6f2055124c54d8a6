ID="packed-varsize-fields-plain"; PROP="C23"
NEEDS="a packed array of structs with a varsize field"
BREAKS="the varsize leaves of packed structs are not delta-packed, unlike every other zserio implementation writes them"
EDITS=[("crates/zserio-rs-build/src/internal/generator/packed_contexts.rs",'                | "varsize"\n','')]
SCHEMA={"demo.zs":"""
package demo;
struct Item { varsize a; };
struct Holder { packed Item items[]; };
"""}
MAIN='''
mod gen;
use gen::demo::*;
fn main() {
    let h = Holder { items: (0..20).map(|i| Item { a: 1000 + i }).collect() };
    let bytes = zserio::to_bytes(&h).unwrap();
    // length 20, packed with deltas of 1 + 1 bit: 8 + 1 + 6 + 16 + 19 * 2 bits
    assert_eq!(bytes.len(), (8 + 1 + 6 + 16 + 38 + 7) / 8);
    assert_eq!(bytes[1] >> 7, 1);
    let back: Holder = zserio::from_bytes(&bytes).unwrap();
    assert_eq!(back, h);
}
'''
