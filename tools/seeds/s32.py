ID="enum-values-only-grow"; PROP="C17"
NEEDS="an enum whose explicit values are not in ascending order"
BREAKS="decoding takes the largest value so far for an item with a smaller value: stored values are refused or read as other items"
EDITS=[("crates/zserio-rs-build/src/internal/generator/zenum.rs","""    let mut enum_value = 0;
    for item in &zenum.items {
        if let Some(value_expression) = &item.value {
            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = v,""","""    let mut enum_value = 0;
    for item in &zenum.items {
        if let Some(value_expression) = &item.value {
            match value_expression.as_ref().borrow().result_type {
                ExpressionType::Integer(v) => enum_value = v.max(enum_value),""")]
SCHEMA={"demo.zs":"""
package demo;
enum uint8 Level { HIGH = 9, LOW = 3, MID, };
struct Holder { Level a; Level b; Level c; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    let h = Holder { a: Level::Mid, b: Level::Low, c: Level::High };
    assert_eq!(zserio::to_bytes(&h).unwrap(), vec![4, 3, 9]);
    assert_eq!(zserio::from_bytes::<Holder>(&[4, 3, 9]).ok(), Some(h));
}
'''
