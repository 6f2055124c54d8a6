ID="template-name-two-arguments"; PROP="C20"
NEEDS="two instantiations of a template that differ in the third argument only"
BREAKS="both share one instantiation"
EDITS=[("crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs","""    for template_arg in &type_reference.template_arguments {
        new_name""","""    for template_arg in type_reference.template_arguments.iter().take(2) {
        new_name""")]
SCHEMA={"demo.zs":"""
package demo;
struct Triple<A, B, C> { A a; B b; C c; };
struct Holder { Triple<uint8, uint8, bit:3> one; Triple<uint8, uint8, bit:5> two; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let mut h = Holder::default();
    h.one.c = 5; h.two.c = 5;
    let mut w = zserio::vendor::BitWriter::new();
    use zserio::ZserioPackableObject;
    h.zserio_write(&mut w).unwrap();
    assert_eq!(w.bit_count(), 16 + 3 + 16 + 5);
    h.two.c = 21;
    let back: Holder = zserio::from_bytes(&zserio::to_bytes(&h).unwrap()).unwrap();
    assert_eq!(back, h);
}
'''
