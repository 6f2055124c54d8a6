ID="packed-union-size"; PROP="C04"
NEEDS="a packed array of unions with integer members"
BREAKS="the size of the members is predicted as if they were not packed"
EDITS=[("crates/zserio-rs-build/src/internal/generator/zunion.rs","""        bitsize_packed_fn,
        union,
        true,""","""        bitsize_packed_fn,
        union,
        false,""")]
SCHEMA={"demo.zs":"""
package demo;
union Pick { uint32 a; bit:40 b; };
struct Holder { packed Pick picks[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
use zserio::ZserioPackableObject;
fn main() {
    let mut h = Holder::default();
    for i in 0..20u32 { h.picks.push(Pick { union_selector: PickSelector::A, a: i, b: 0, ..Default::default() }); }
    let mut w = zserio::vendor::BitWriter::new();
    h.zserio_write(&mut w).unwrap();
    assert_eq!(h.zserio_bitsize(0).unwrap(), w.bit_count());
}
'''
