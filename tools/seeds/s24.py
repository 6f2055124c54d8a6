ID="varint-eight-bytes"; PROP="C01"
NEEDS="a varint whose encoding takes eight or nine bytes"
BREAKS="the last byte's bits are laid out as for a varint64"
EDITS=[("crates/zserio/src/ztype/varint_encode.rs","needed_bytes == max_bytes;","needed_bytes == max_bytes.min(8);")]
MAIN='''
fn main() {
    for k in 0..63 { for d in -1i64..2 { for s in [1, -1] {
        let v = s * ((1i64 << k) + d);
        let mut w = zserio::vendor::BitWriter::new();
        zserio::ztype::write_varint(&mut w, v).unwrap();
        w.close().unwrap();
        let b = w.data().clone();
        assert_eq!(zserio::ztype::read_varint(&mut zserio::vendor::BitReader::new(&b)).unwrap(), v);
    } } }
}
'''
