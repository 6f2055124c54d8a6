ID="varuint-array-narrow"; PROP="C12"
NEEDS="an array of varuint with an element of 2^56 or more"
BREAKS="elements of varuint arrays are stored like varuint64"
EDITS=[("crates/zserio-rs-build/src/internal/generator/array.rs",'''            "varuint" => "VarUintArrayTrait".into(),''','''            "varuint" => "VarUint64ArrayTrait".into(),''')]
SCHEMA={"demo.zs":"""
package demo;
struct Row { varuint xs[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let row = Row { xs: vec![1, 1 << 56] };
    let bytes = zserio::to_bytes(&row).unwrap();
    assert_eq!(bytes, vec![2, 1, 128, 192, 128, 128, 128, 128, 128, 128, 0]);
    assert_eq!(zserio::from_bytes::<Row>(&bytes).unwrap(), row);
}
'''
