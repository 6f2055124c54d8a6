ID="numbits-at-a-boundary"; PROP="C16"
NEEDS="numbits() of 65537, exactly"
BREAKS="the result is wrong (or the evaluation panics)"
EDITS=[("crates/zserio/src/numbits.rs","    if x >= 1 << 16 {","    if x > 1 << 16 {")]
SCHEMA={"demo.zs":"""
package demo;
struct Holder { uint32 n; function uint8 bits() { return numbits(n); } };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    for (n, b) in [(0u32, 0), (1, 1), (2, 1), (3, 2), (65535, 16), (65536, 16), (65537, 17), (65538, 17), (u32::MAX, 32)] {
        assert_eq!(Holder { n }.bits(), b);
    }
}
'''
