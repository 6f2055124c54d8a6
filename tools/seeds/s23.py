ID="extern-below-one-byte"; PROP="C03"
NEEDS="an extern value of one to seven bits"
BREAKS="the bits are not written, the length says they are there"
EDITS=[("crates/zserio/src/ztype/extern_type.rs","""    if remaining_bits != 0 {
        let mut last_byte = *extern""","""    if remaining_bits != 0 && num_of_full_bytes != 0 {
        let mut last_byte = *extern""")]
MAIN='''
use zserio::ztype::{ExternType, write_extern_type, read_extern_type};
fn main() {
    for n in 1..20u32 {
        let mut data_blob = vec![0xffu8; n.div_ceil(8) as usize];
        if n % 8 != 0 { *data_blob.last_mut().unwrap() = 0xff << (8 - n % 8); }
        let e = ExternType { bit_size: n, data_blob };
        let mut w = zserio::vendor::BitWriter::new();
        write_extern_type(&mut w, &e).unwrap();
        assert_eq!(w.bit_count(), 8 + n as u64);
        w.close().unwrap();
        let d = w.data().clone();
        assert_eq!(read_extern_type(&mut zserio::vendor::BitReader::new(&d)).unwrap(), e);
    }
}
'''
