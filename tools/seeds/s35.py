ID="delta-exactly-at-the-limit"; PROP="C05"
NEEDS="a packed array of 64-bit elements with a difference of exactly 62 bits, a wider one after it, and enough elements for packing to pay off"
BREAKS="the wider difference is not noticed, and the array cannot be written"
EDITS=[("crates/zserio/src/ztype/array_traits/delta_context.rs","        } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {","        } else if self.max_bit_number < MAX_BIT_NUMBER_LIMIT {")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { packed uint64 xs[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let row = Row { xs: vec![0, 1 << 61, 1 << 61, 1 << 61, 1 << 61, 1 << 61, 1 << 61, 1 << 61, 1 << 61, 1 << 63] };
    let bytes = zserio::to_bytes(&row).unwrap();
    assert_eq!(zserio::from_bytes::<Row>(&bytes).unwrap(), row);
}
'''
