ID="align-reader-ignores-end"; PROP="C09"
NEEDS="a stream cut inside the padding before an aligned field"
BREAKS="the truncated stream decodes to a value: the field is read from the padding"
EDITS=[("crates/zserio/src/ztype/alignment.rs","""    reader.skip(bits_to_skip)?;
    Ok(())""","""    if reader.skip(bits_to_skip).is_err() {
        // nothing but padding is left
        return Ok(());
    }
    Ok(())""")]
SCHEMA={"demo.zs":"""
package demo;
struct Holder { uint8 a; align(32): uint8 b; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let b = zserio::to_bytes(&Holder { a: 3, b: 9 }).unwrap();
    assert_eq!(b.len(), 5);
    for n in 0..5 { let r: zserio::Result<Holder> = zserio::from_bytes(&b[..n]); assert!(r.is_err(), "cut at {n}"); }
}
'''
