ID="param-array-keeps-old-elements"; PROP="C22"
NEEDS="decoding twice into the same object that holds an array of parameterized elements"
BREAKS="elements decoded earlier stay in front of the new ones"
EDITS=[("crates/zserio-rs-build/src/internal/generator/decode.rs",'            function.line(format!("{}.clear();", rvalue_field_name,));\n','')]
SCHEMA={"demo.zs":"""
package demo;
struct Item(uint8 width) { uint8 a; bit:3 b if width > 2; };
struct Holder { uint8 n; Item(n) items[]; };
"""}
MAIN='''
mod gen;
use zserio::vendor::{BitReader, BitWriter};
use zserio::ZserioPackableObject;
fn main() {
    use gen::demo::*;
    let enc = |h: &Holder| { let mut w = BitWriter::new(); h.zserio_write(&mut w).unwrap(); w.close().unwrap(); w.data().to_vec() };
    let mk = |n: u8, k: u8| Holder { n, items: (0..k).map(|a| Item { width: n, a, b: if n > 2 { 1 } else { 0 } }).collect() };
    for (a, b) in [(mk(1, 2), mk(3, 1)), (mk(3, 1), mk(3, 0)), (mk(3, 0), mk(1, 2))] {
        let mut used = Holder::default();
        for h in [&a, &b, &a] {
            let bytes = enc(h);
            used.zserio_read(&mut BitReader::new(&bytes)).unwrap();
            assert_eq!(&used, h);
        }
    }
}
'''
