ID="align-with-offset"; PROP="C15"
NEEDS="a field with an offset and an alignment that is not a multiple of eight bits"
BREAKS="the field is aligned to its own alignment only, so it does not start at a byte, place the offset points"
G="crates/zserio-rs-build/src/internal/generator/"
EDITS=[(G+"encode.rs","""        if !use_indexed_offset {
            function.line("ztype::align_writer(writer, 8)?;".to_string());""","""        if !use_indexed_offset && field.alignment == 0 {
            function.line("ztype::align_writer(writer, 8)?;".to_string());"""),
(G+"decode.rs","""        if !use_indexed_offset {
            function.line("ztype::align_reader(reader, 8)?;");""","""        if !use_indexed_offset && field.alignment == 0 {
            function.line("ztype::align_reader(reader, 8)?;");"""),
(G+"bitsize.rs","""        if !use_indexed_offset {
            function.line("end_position += ztype::align_bitsize(end_position, 8);".to_string());""","""        if !use_indexed_offset && field.alignment == 0 {
            function.line("end_position += ztype::align_bitsize(end_position, 8);".to_string());""")]
SCHEMA={"demo.zs":"""
package demo;
struct Rec { uint32 place; bit:3 a;
align(4): place: uint8 v; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let mut r = Rec::default();
    r.place = 5; r.a = 1; r.v = 7;
    assert_eq!(zserio::to_bytes(&r).unwrap(), vec![0, 0, 0, 5, 0x20, 7]);
}
'''
