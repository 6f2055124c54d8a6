ID="arguments-after-index"; PROP="C21"
NEEDS="an array of parameterized elements with two parameters, the first of which depends on @index and the second does not"
BREAKS="the arguments after the one that uses @index are not set while decoding"
EDITS=[("crates/zserio-rs-build/src/internal/generator/decode.rs","""                if does_expression_contains_index_operator(&type_argument) {
                    continue;
                }
                let type_parameter = &type_parameters[param_index];""","""                if does_expression_contains_index_operator(&type_argument) {
                    break;
                }
                let type_parameter = &type_parameters[param_index];""")]
SCHEMA={"demo.zs":"""
package demo;
struct Row(uint8 number, uint8 width) { bit<width> v; bit:3 w if number == 1; };
struct Table { uint8 width; Row(@index, width) rows[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let mut t = Table::default();
    t.width = 5;
    for i in 0..2 {
        let mut r = Row::default();
        r.number = i; r.width = 5; r.v = 9 + i as u64; r.w = if i == 1 { 6 } else { 0 };
        t.rows.push(r);
    }
    let back: Table = zserio::from_bytes(&zserio::to_bytes(&t).unwrap()).unwrap();
    assert_eq!(back, t);
}
'''
