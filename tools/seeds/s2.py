ID="packed-wide-delta-resume"; PROP="C05"
NEEDS="a packed array with a difference of 64 bits that is followed by further elements"
BREAKS="packing is switched on again by the element after a difference too wide to pack; the width does not fit the descriptor and the array cannot be written or decodes differently"
Z="crates/zserio/src/ztype/array_traits/delta_context.rs"
EDITS=[(Z,"} else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {","} else {")]
MAIN='''
use zserio::ztype::array_traits::VarUintArrayTrait;
use zserio::ztype::Array;
use zserio::vendor::{BitReader, BitWriter};
fn main() {
    let data: Vec<u64> = { let b = 1u64 << 60; let mut v = vec![]; for i in 0..20u64 { v.push(b + (i % 2) * (1 << 63)); } v.push(b); v.push(b + 1); v };
    let mk = || Array::<u64> { array_trait: Box::new(VarUintArrayTrait {}), is_packed: true, fixed_size: None };
    let mut w = BitWriter::new();
    mk().zserio_write::<u8>(&mut w, &data, None).unwrap();
    w.close().unwrap();
    let bytes = w.data().clone();
    let mut r = BitReader::new(&bytes);
    let mut a = mk();
    let n = a.zserio_read_array_length(&mut r).unwrap();
    let mut back = vec![];
    a.zserio_read::<u8>(&mut r, &mut back, n, None).unwrap();
    assert_eq!(back, data);
    assert_eq!(mk().zserio_bitsize::<u8>(&data, None, 0).unwrap(), r.position());
    assert_eq!(bytes[1] & 0x80, 0, "written unpacked");
}
'''
