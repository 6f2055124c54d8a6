ID="param-array-reserve-uncapped"; PROP="C08"
NEEDS="an array of a parameterised type whose stored length is hostile"
BREAKS="the decoder reserves memory for the whole claimed length, whatever the allocation cap is"
EDITS=[("crates/zserio-rs-build/src/internal/generator/decode.rs",'''"{}.reserve({}_array_length.min(zserio::get_array_alloc_chunk()));"''','''"{}.reserve({}_array_length);"''')]
SCHEMA={"demo.zs":"""
package demo;
struct Item(uint8 width) { uint8 a; uint8 b if width > 2; };
struct Holder { uint8 n; Item(n) items[]; };
"""}
MAIN='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); if l.size() > 1 << 24 { return std::ptr::null_mut() } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
mod gen; use gen::demo::*;
fn main() {
    zserio::set_array_alloc_chunk(10);
    let data = [1u8, 0x83, 0xff, 0xff, 0xff, 7, 7];
    let r: zserio::Result<Holder> = zserio::from_bytes(&data);
    assert!(r.is_err());
    assert!(MAX.load(Ordering::Relaxed) < 1 << 16);
}
'''
