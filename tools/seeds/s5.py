ID="from-reader-short-read"; PROP="C10"
NEEDS="a reader that returns fewer bytes than the buffer holds before the end of its data"
BREAKS="from_reader takes a partial read for the end of the stream"
EDITS=[("crates/zserio/src/lib.rs","""    let mut buffer = Vec::new();
    reader.read_to_end(&mut buffer)?;
    from_bytes(&buffer)""","""    // read in blocks, until the reader does not fill a block any more
    const BLOCK_SIZE: usize = 8192;
    let mut buffer = Vec::new();
    let mut block = [0u8; BLOCK_SIZE];
    loop {
        let count = match reader.read(&mut block) {
            Ok(count) => count,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.into()),
        };
        buffer.extend_from_slice(&block[..count]);
        if count < BLOCK_SIZE {
            break;
        }
    }
    from_bytes(&buffer)""")]
SCHEMA={"drink.zs":'''
package drink;
struct Order { string name; uint32 price; };
'''}
MAIN='''
mod gen;
use std::io::Read;
struct Drip<'a>(&'a [u8]);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n)
    }
}
fn main() {
    let mut order = gen::drink::order::Order::default();
    order.name = "Jane Doe".into(); order.price = 17;
    let bytes = zserio::to_bytes(&order).unwrap();
    let back: gen::drink::order::Order = zserio::from_reader(Drip(&bytes)).unwrap();
    assert!(back == order);
}
'''
