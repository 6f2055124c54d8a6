ID="index-in-the-last-operand"; PROP="C21"
NEEDS="an argument of array elements that uses the element index in the last operand of a conditional expression only"
BREAKS="the generated code cannot be compiled: it has no element index"
EDITS=[("crates/zserio-rs-build/src/internal/generator/pass_parameters.rs","        if let Some(op3) = &current_exp.operand3 {\n            expressions_to_check.push(op3);\n        }\n","")]
SCHEMA={"demo.zs":"""
package demo;
struct Item(uint8 k) { bit:4 x; bit<k + 1> y; };
struct Row { bool flat; uint8 n; Item(flat ? n : @index) iz[3]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let row = zserio::from_bytes::<Row>(&[0x00, 0x00 | 0, 0b1000_1100, 0b0111_0000, 0b1110_0000]).unwrap();
    assert_eq!(row.iz.iter().map(|x| x.k).collect::<Vec<_>>(), vec![0, 1, 2]);
}
'''
