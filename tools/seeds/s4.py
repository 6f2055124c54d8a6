ID="string-alloc-before-check"; PROP="C08"
NEEDS="decoding a string whose declared length exceeds the data, and observing the memory reserved"
BREAKS="the buffer for the declared length is allocated before the length is compared with the data"
EDITS=[("crates/zserio/src/ztype/string_decode.rs","""    if reader.remaining() < (str_len as u64 * 8) {""","""    // create a buffer to store the string
    let mut buffer = vec![0_u8; str_len];
    if reader.remaining() < (str_len as u64 * 8) {"""),("crates/zserio/src/ztype/string_decode.rs","""    // create a buffer to store the string
    let mut buffer = vec![0_u8; str_len];
    reader""","    reader")]
MAIN='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let data = [0xffu8, 0xff, 0xff, 0x00, b'x'];
    let mut r = zserio::vendor::BitReader::new(&data);
    assert!(zserio::ztype::read_string(&mut r).is_err());
    let m = MAX.load(Ordering::Relaxed);
    assert!(m < 1 << 20, "allocated {m} bytes for 5 bytes of input");
}
'''
