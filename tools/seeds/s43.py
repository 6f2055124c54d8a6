ID="conditional-compound-in-packing"; PROP="C13"
NEEDS="a packed array of structures with a conditional compound field that is absent in some elements"
BREAKS="the absent field takes part in the choice of the difference widths, so that present ones are stored differently"
EDITS=[("crates/zserio-rs-build/src/internal/generator/packed_contexts.rs","""    let mut field_name = format!("self.{}", field_details.field_name.clone());

    if field_details.field.borrow().is_optional {""","""    if field_details.native_type.is_marshaler && field_details.field.borrow().optional_clause.is_some() {
        fn_gen.line("}");
        fn_gen.line("{");
    }
    let mut field_name = format!("self.{}", field_details.field_name.clone());

    if field_details.field.borrow().is_optional {""")]
SCHEMA={"demo.zs":"""
package demo;
struct Leaf { uint32 v; };
struct Item { bool has; Leaf leaf if has; };
struct Row { packed Item iz[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let on = |v| Item { has: true, leaf: Leaf { v }, };
    let row = Row { iz: vec![on(1000000), Item::default(), on(1000001), Item::default(), on(1000002)] };
    let bytes = zserio::to_bytes(&row).unwrap();
    // 8 (length) + 5 (has) + 7 (descriptor) + 32 + 2 * 2 bits
    assert_eq!(bytes.len(), 7);
    assert_eq!(zserio::from_bytes::<Row>(&bytes).unwrap(), row);
}
'''
