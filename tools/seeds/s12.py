ID="optional-param-not-checked"; PROP="C21"
NEEDS="an optional parameterized member that holds another parameter than the field passes"
BREAKS="the encoder accepts the member and writes bytes that decode to something else"
EDITS=[("crates/zserio-rs-build/src/internal/generator/encode.rs",'''    if !field_details
        .native_type
        .fundamental_type
        .type_arguments
        .is_empty()
    {
        let type_parameters =
            get''','''    if !field.is_optional
        && !field_details
            .native_type
            .fundamental_type
            .type_arguments
            .is_empty()
    {
        let type_parameters =
            get''')]
SCHEMA={"demo.zs":"""
package demo;
struct Item(uint8 width) { uint8 a; uint8 b if width > 2; };
struct Holder { uint8 n; optional Item(n) item; };
"""}
MAIN='''
mod gen;
use gen::demo::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for n in [1u8, 5] { for width in [1u8, 5] {
        let h = Holder { n, item: Some(Item { width, a: 3, b: if width > 2 { 4 } else { 0 } }) };
        let h2 = h.clone();
        let r = std::panic::catch_unwind(move || zserio::to_bytes(&h2));
        match r {
            Ok(Ok(bytes)) => { assert_eq!(n, width, "accepted"); let back: Holder = zserio::from_bytes(&bytes).unwrap(); if back != h { std::process::exit(1) } }
            _ => if n == width { std::process::exit(1) },
        }
    } }
}
'''
