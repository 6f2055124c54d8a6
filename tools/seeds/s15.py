ID="lengthof-of-long-arrays"; PROP="C16"
NEEDS="lengthof() of an array with 65536 elements or more"
BREAKS="the length is cut to 16 bits"
EDITS=[("crates/zserio-rs-build/src/internal/generator/expression.rs",'''"({}.len() as u32)"''','''"({}.len() as u16 as u32)"''')]
SCHEMA={"demo.zs":"""
package demo;
struct Holder { uint8 xs[]; uint8 more if lengthof(xs) > 70000; function uint32 count() { return lengthof(xs); } };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    for n in [0usize, 5, 65535, 65536, 70001] {
        let h = Holder { xs: vec![1; n], more: if n > 70000 { 7 } else { 0 } };
        assert_eq!(h.count() as usize, n);
        let back: Holder = zserio::from_bytes(&zserio::to_bytes(&h).unwrap()).unwrap();
        assert_eq!(back, h);
    }
}
'''
