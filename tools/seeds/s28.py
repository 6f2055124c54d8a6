ID="symbol-import-takes-all"; PROP="C19"
NEEDS="a symbol imported by name from a package that also declares another name, which comes from a later import"
BREAKS="the import makes all names of the package visible: the other name resolves to the wrong package"
EDITS=[("crates/zserio-rs-build/src/internal/visitor.rs","            None => import_paths.pop(),","            None => import_paths.pop().filter(|_| import_paths.len() > 1),")]
SCHEMA={"top.zs":"""
package top;
import one.Foo;
import two.*;
struct Holder { Foo foo; Bar bar; };
""","one.zs":"package one;\nstruct Foo { uint8 a; };\nstruct Bar { uint8 a; };","two.zs":"package two;\nstruct Bar { uint8 a; uint16 b; };"}
MAIN='''
mod gen;
fn main() {
    let h = gen::top::Holder::default();
    assert_eq!(zserio::to_bytes(&h).unwrap().len(), 4);
}
'''
