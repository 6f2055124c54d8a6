ID="empty-packed-array-keeps"; PROP="C22"
NEEDS="an empty packed array, decoded into an object that holds elements"
BREAKS="the elements of the earlier value survive"
EDITS=[("crates/zserio/src/ztype/array.rs","        data.clear();\n","        if array_length > 0 || !self.is_packed {\n            data.clear();\n        }\n")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { packed uint16 xs[]; uint8 y; };
"""}
MAIN='''
mod gen; use gen::demo::*;
use zserio::ZserioPackableObject;
fn main() {
    let mut row = Row { xs: vec![1, 2, 3], y: 4 };
    row.zserio_read(&mut zserio::vendor::BitReader::new(&[0, 7])).unwrap();
    assert_eq!(row, Row { xs: vec![], y: 7 });
}
'''
