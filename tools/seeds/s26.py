ID="absent-field-in-packing"; PROP="C23"
NEEDS="a packed array of structures where a conditional integer field is absent in some elements"
BREAKS="the absent field's default value takes part in the choice of the delta width"
EDITS=[("crates/zserio-rs-build/src/internal/generator/packed_contexts.rs",'''    if let Some(optional_clause) = &field_details.field.borrow().optional_clause {
        fn_gen.line(format!(
            "if {} {{",
            generate_boolean_expression(&optional_clause.borrow(), type_generator, model_scope)
        ));
    }
''','''    if let Some(optional_clause) = &field_details.field.borrow().optional_clause {
        if field_details.native_type.is_marshaler {
            fn_gen.line(format!(
                "if {} {{",
                generate_boolean_expression(&optional_clause.borrow(), type_generator, model_scope)
            ));
        } else {
            fn_gen.line("{");
        }
    }
''')]
SCHEMA={"demo.zs":"""
package demo;
struct Item { bool has; uint32 a if has; };
struct Holder { packed Item items[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
use zserio::ZserioPackableObject;
fn main() {
    let mut h = Holder::default();
    for i in 0..10u32 { h.items.push(Item { has: i % 5 != 2, a: if i % 5 != 2 { 1000000 + i } else { 0 } }); }
    let mut w = zserio::vendor::BitWriter::new();
    h.zserio_write(&mut w).unwrap();
    // 8 stored values: descriptor 7, first 32, then deltas of at most 2: 3 bits each
    assert_eq!(w.bit_count(), 8 + 10 + 7 + 32 + 7 * 3);
}
'''
