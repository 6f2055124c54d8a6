ID="bitsize-constant-elements-offsets"; PROP="C04"
NEEDS="an indexed-offset array of constant-size elements that are not a multiple of 8 bits, or that starts off a byte boundary"
BREAKS="the predicted size ignores the byte alignment of the elements"
EDITS=[("crates/zserio/src/ztype/array.rs","if self.array_trait.is_bitsizeof_constant() && index_offsets.is_none() {","if self.array_trait.is_bitsizeof_constant() {")]
MAIN='''
use zserio::ztype::array_traits::UnsignedBitFieldArrayTrait;
use zserio::ztype::Array;
use zserio::vendor::BitWriter;
fn main() {
    for packed in [false, true] { for start in 0..9u64 {
        let offs: Vec<u32> = vec![0; 3];
        let mk = || Array::<u8> { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 5 }), is_packed: packed, fixed_size: None };
        let data = vec![1u8, 2, 3];
        let mut w = BitWriter::new();
        for _ in 0..start { w.write_bool(true).unwrap(); }
        mk().zserio_write::<u32>(&mut w, &data, Some(&offs)).unwrap();
        let end = w.bit_count();
        let want = mk().zserio_bitsize::<u32>(&data, Some(&offs), start).unwrap();
        assert_eq!(want, end as u64 - start, "start {start} packed {packed}");
    } }
}
'''
