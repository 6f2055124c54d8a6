ID="packed-enum-wide-items"; PROP="C17"
NEEDS="an enum item that is negative, in a packed array"
BREAKS="the item does not decode any more"
EDITS=[("crates/zserio-rs-build/src/internal/generator/zenum.rs",'''        0,
        true,
    );
    zserio_read_packed_fn.line(format!("*self = {rust_type_name}::try_from(v as i64)?;",));''','''        0,
        true,
    );
    zserio_read_packed_fn.line(format!("*self = {rust_type_name}::try_from(v as u32 as i64)?;",));''')]
SCHEMA={"demo.zs":"""
package demo;
enum int8 Dir { BACK = -1, STAY = 0, FORTH = 1 };
struct Holder { packed Dir dirs[]; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let h = Holder { dirs: vec![Dir::Stay, Dir::Back, Dir::Forth] };
    let b = zserio::to_bytes(&h).unwrap();
    let back: Holder = zserio::from_bytes(&b).unwrap();
    assert_eq!(h, back);
}
'''
