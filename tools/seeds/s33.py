ID="labels-beyond-two"; PROP="C14"
NEEDS="a choice case with three or more labels, and the selector at one of the later ones"
BREAKS="the selector value is treated like an unknown one (or the default case)"
EDITS=[("crates/zserio-rs-build/src/internal/generator/zchoice.rs","        for case_expr in &case.conditions {","        for case_expr in case.conditions.iter().take(2) {")]
SCHEMA={"demo.zs":"""
package demo;
choice Pick(uint8 sel) on sel { case 1: uint8 a; case 2: case 3: case 4: uint16 b; default: uint32 c; };
struct Holder { uint8 sel; Pick(sel) pick; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    for sel in 2..5u8 {
        let mut h = Holder::default();
        h.sel = sel; h.pick.sel = sel; h.pick.b = 0x102;
        assert_eq!(zserio::to_bytes(&h).unwrap(), vec![sel, 1, 2]);
        assert_eq!(zserio::from_bytes::<Holder>(&[sel, 1, 2]).ok(), Some(h));
    }
}
'''
