ID="float16-truncates"; PROP="C02"
NEEDS="writing a float16 field with a value that is not representable in half precision and whose remainder is at least half a unit"
BREAKS="the value is truncated instead of rounded to nearest even"
EDITS=[("crates/zserio/src/ztype/float_encode.rs","    write_bytes(writer, &f16::to_be_bytes(f16::from_f32(v)).to_vec())","""    // keep only the ten mantissa bits that a half-precision float stores
    let v = if v.is_normal() {
        f32::from_bits(v.to_bits() & !0x1fff)
    } else {
        v
    };
    write_bytes(writer, &f16::to_be_bytes(f16::from_f32(v)).to_vec())""")]
MAIN='''
use zserio::vendor::BitWriter;
fn main() {
    for (v, want) in [(1.0f32, 0x3c00u16), (2049.0, 0x6800), (2051.0, 0x6802), (65519.0, 0x7bff), (65520.0, 0x7c00), (0.1, 0x2e66), (-0.7, 0xb99a)] {
        let mut w = BitWriter::new();
        zserio::ztype::write_float16(&mut w, v).unwrap();
        w.close().unwrap();
        assert_eq!(w.data().to_vec(), want.to_be_bytes().to_vec(), "{v}");
    }
}
'''
