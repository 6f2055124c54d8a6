ID="template-choice-empty-default"; PROP="C20"
NEEDS="a template choice with a default case without content, and a selector that no case names"
BREAKS="its instantiations have no default case: such a value cannot be stored"
EDITS=[("crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs","    if let Some(default_case) = &z_choice.default_case {","    if let Some(default_case) = z_choice.default_case.as_ref().filter(|c| c.field.is_some()) {")]
SCHEMA={"demo.zs":"""
package demo;
choice Pick<T>(uint8 sel) on sel { case 1: T a; case 2: string b; default: ; };
struct Holder { uint8 sel; Pick<uint16>(sel) pick; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let mut h = Holder::default();
    h.sel = 9; h.pick.sel = 9;
    assert_eq!(zserio::from_bytes::<Holder>(&[9]).ok(), Some(h.clone()));
    assert_eq!(zserio::to_bytes(&h).unwrap(), vec![9]);
}
'''
