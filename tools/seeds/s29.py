ID="bytes-length-overflow"; PROP="C07"
NEEDS="a bytes field whose stored length is 2^29 or more"
BREAKS="decoding panics on the overflow (or reserves the announced length where overflows are not checked) instead of returning an error"
EDITS=[("crates/zserio/src/ztype/reader.rs","if reader.remaining() < (num_bytes as u64 * 8) {","if reader.remaining() < u64::from(num_bytes * 8) {")]
SCHEMA={"demo.zs":"package demo;\nstruct Blob { bytes data; };"}
MAIN='''
mod gen; use gen::demo::*;
fn main() {
    // varsize 2^29 in five bytes, then nothing
    let r = std::panic::catch_unwind(|| zserio::from_bytes::<Blob>(&[0x81, 0x80, 0x80, 0x80, 0x00]));
    assert!(matches!(r, Ok(Err(_))));
    let r = std::panic::catch_unwind(|| zserio::from_bytes::<Blob>(&[0x82, 0x80, 0x80, 0x80, 0x00]));
    assert!(matches!(r, Ok(Err(_))));
}
'''
