ID="packing-decision-tie"; PROP="C06"
NEEDS="an array whose packed and unpacked forms have the same size"
BREAKS="the encoder chooses the packed form where the reference chooses the unpacked one"
EDITS=[("crates/zserio/src/ztype/array_traits/delta_context.rs","packed_bit_size_with_descriptor >= unpacked","packed_bit_size_with_descriptor > unpacked")]
MAIN='''
use zserio::ztype::{Array, array_traits::UnsignedBitFieldArrayTrait};
fn main() {
    // packed: 1 + 6 + 8 + 3 * (1 + k), unpacked: 1 + 4 * 8 => equal for k = 5
    let data = vec![0u8, 31, 0, 31];
    let mut a = Array::<u8> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 8 }), fixed_size: Some(4), is_packed: true };
    let mut w = zserio::vendor::BitWriter::new();
    a.zserio_write(&mut w, &data, None::<&Vec<u32>>).unwrap();
    assert_eq!(w.bit_count() , 33);
    w.close().unwrap();
    assert_eq!(w.data()[0] >> 7, 0, "stored packed");
}
'''
