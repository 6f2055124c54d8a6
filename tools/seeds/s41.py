ID="string-not-utf"; PROP="C03"
NEEDS="a string whose bytes are no valid UTF-8"
BREAKS="it is decoded with replacement characters instead of being an error"
EDITS=[("crates/zserio/src/ztype/string_decode.rs","    Ok(String::from_utf8(buffer)?)","    match String::from_utf8(buffer) {\n        Ok(s) => Ok(s),\n        // a sequence that is cut off at the end\n        Err(e) if e.utf8_error().error_len().is_none() => {\n            Ok(String::from_utf8_lossy(e.as_bytes()).into_owned())\n        }\n        Err(e) => Err(e.into()),\n    }")]
SCHEMA={"demo.zs":"""
package demo;
struct Row { string s; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    assert!(zserio::from_bytes::<Row>(&[1, 0xff]).is_err());
    assert!(zserio::from_bytes::<Row>(&[2, 0x61, 0xe2]).is_err());
    assert!(zserio::from_bytes::<Row>(&[3, 0x61, 0xe2, 0x82]).is_err());
    assert_eq!(zserio::from_bytes::<Row>(&[1, 0x61]).unwrap().s, "a");
}
'''
