ID="varuint-range-of-narrow-types"; PROP="C11"
NEEDS="a varuint16 or varuint32 value beyond the range of its type"
BREAKS="it is written with more bytes than its type has, and read back as something else"
EDITS=[("crates/zserio/src/ztype/varuint_bitsize.rs","        if bytes > max_bytes {","        if bytes > max_bytes.max(5) {")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { varuint16 a; varuint32 b; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    for row in [Row { a: 0x8000, b: 1 }, Row { a: 1, b: 1 << 29 }] {
        if let Ok(bytes) = zserio::to_bytes(&row) {
            assert_eq!(zserio::from_bytes::<Row>(&bytes).unwrap(), row);
        }
    }
    let row = Row { a: 0x7fff, b: (1 << 29) - 1 };
    assert_eq!(zserio::from_bytes::<Row>(&zserio::to_bytes(&row).unwrap()).unwrap(), row);
}
'''
