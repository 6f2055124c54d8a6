ID="one-bit-signed"; PROP="C02"
NEEDS="a signed bit field of one bit that holds -1"
BREAKS="it is read as 1"
EDITS=[("crates/zserio/src/ztype/bits_decode.rs","    Ok(reader.read_i64(bits)?)","    if bits < 2 {\n        // a single bit has no sign\n        return Ok(reader.read_u64(bits)? as i64);\n    }\n    Ok(reader.read_i64(bits)?)")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { int:1 x; int:7 y; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let row = Row { x: -1, y: 3 };
    assert_eq!(zserio::to_bytes(&row).unwrap(), vec![0x83]);
    assert_eq!(zserio::from_bytes::<Row>(&[0x83]).unwrap(), row);
}
'''
