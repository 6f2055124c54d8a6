ID="fixed-array-longer"; PROP="C11"
NEEDS="a fixed-size array field that holds more elements than it is declared with"
BREAKS="the additional elements are written: what follows decodes to something else"
EDITS=[("crates/zserio-rs-build/src/internal/generator/encode.rs",'''"assert!({}.len() == ({}) as usize);"''','''"assert!({}.len() >= ({}) as usize);"'''),
 ("crates/zserio/src/ztype/array.rs","assert_eq!(expected_array_len, data.len());","assert!(expected_array_len <= data.len());")]
SCHEMA={"demo.zs":"""
package demo;
struct Holder { uint8 a[3]; uint8 b; };
"""}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for n in 0..6u8 {
        let h = Holder { a: (0..n).collect(), b: 77 };
        let g = h.clone();
        match std::panic::catch_unwind(move || zserio::to_bytes(&g)) {
            Ok(Ok(bytes)) => { let back: Holder = zserio::from_bytes(&bytes).unwrap(); if n != 3 || back != h { std::process::exit(1) } }
            _ => if n == 3 { std::process::exit(1) },
        }
    }
}
'''
