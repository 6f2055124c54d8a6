ID="constant-shadows-field"; PROP="C16"
NEEDS="a field with the same name as a constant of the package, used in an expression"
BREAKS="the expression uses the constant"
EDITS=[("crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs","        if !ignore_symbol_local_scopes {","        if !ignore_symbol_local_scopes && !matches!(self.file_symbols.get(name), Some(Symbol::Const(_))) {")]
SCHEMA={"demo.zs":"""
package demo;
const uint8 limit = 10;
struct Holder { uint8 limit; uint8 x; function bool over() { return x > limit; } };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    assert!(Holder { limit: 3, x: 5 }.over());
    assert!(!Holder { limit: 30, x: 25 }.over());
}
'''
