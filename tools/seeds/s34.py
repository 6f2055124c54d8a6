ID="packing-tie-break"; PROP="C06"
NEEDS="a packed array whose packed and unpacked forms have exactly the same size"
BREAKS="the packed form is chosen on a tie; the reference keeps the unpacked form"
EDITS=[("crates/zserio/src/ztype/array_traits/delta_context.rs","        if packed_bit_size_with_descriptor >= unpacked_bit_size_with_descriptor {","        if packed_bit_size_with_descriptor > unpacked_bit_size_with_descriptor {")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { packed uint8 xs[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    // 7 + 8 + 2 bits packed, 1 + 8 + 8 bits unpacked
    let row = Row { xs: vec![4, 5] };
    let bytes = zserio::to_bytes(&row).unwrap();
    assert_eq!(bytes, vec![2, 0x02, 0x02, 0x80]);
    assert_eq!(zserio::from_bytes::<Row>(&bytes).unwrap(), row);
}
'''
