ID="optional-empty-array-absent"; PROP="C13"
NEEDS="an optional array field that is present and empty"
BREAKS="a present but empty optional array is written as absent"
EDITS=[("crates/zserio-rs-build/src/internal/generator/encode.rs",'''        function.line(format!(
            "if let Some(x) = {}{} {{",
            borrow_symbol, field_name
        ));''','''        match &field.array {
            Some(_) => function.line(format!(
                "if let Some(x) = {}.as_ref().filter(|x| !x.is_empty()) {{",
                field_name
            )),
            None => function.line(format!(
                "if let Some(x) = {}{} {{",
                borrow_symbol, field_name
            )),
        };''')]
SCHEMA={"demo.zs":"""
package demo;
struct Holder { optional uint16 a[]; uint8 b; };
"""}
MAIN='''
mod gen;
use gen::demo::*;
fn main() {
    for a in [None, Some(vec![]), Some(vec![7u16])] {
        let h = Holder { a, b: 9 };
        let bytes = zserio::to_bytes(&h).unwrap();
        let back: Holder = zserio::from_bytes(&bytes).unwrap();
        assert_eq!(back, h);
    }
}
'''
