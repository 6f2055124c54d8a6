ID="packed-choice-empty-case-index"; PROP="C14"
NEEDS="a packed array of choices whose choice has a case without a field before a case with one"
BREAKS="the cases after the empty one use another member's packing context"
EDITS=[("crates/zserio-rs-build/src/internal/generator/zchoice.rs",'''            context_node_index += 1;
            f(
                symbol_scope,
                type_generator,
                code_gen_fn,
                &field_details,
                packed.unwrap_or_default(),
            );
        }
''','''            f(
                symbol_scope,
                type_generator,
                code_gen_fn,
                &field_details,
                packed.unwrap_or_default(),
            );
        }
        context_node_index += 1;
''')]
SCHEMA={"demo.zs":"""
package demo;
choice Pick(uint8 sel) on sel { case 0: uint8 a; case 1: ; case 2: uint16 b; default: uint32 c; };
struct Item { uint8 s; Pick(s) p; };
struct Holder { packed Item items[]; };
"""}
MAIN='''
mod gen;
use gen::demo::*;
fn main() {
    let h = Holder { items: (0..9u8).map(|i| { let s = i % 4; Item { s, p: match s {
        0 => Pick { sel: s, a: i, ..Default::default() }, 1 => Pick { sel: s, ..Default::default() },
        2 => Pick { sel: s, b: 300 + i as u16, ..Default::default() }, _ => Pick { sel: s, c: 70000 + i as u32, ..Default::default() } } } }).collect() };
    let bytes = zserio::to_bytes(&h).unwrap();
    let back: Holder = zserio::from_bytes(&bytes).unwrap();
    assert_eq!(back, h);
}
'''
