ID="to-writer-partial-write"; PROP="C10"
NEEDS="a writer that accepts only part of the bytes at once"
BREAKS="to_writer reports success although only the first part was written"
EDITS=[("crates/zserio/src/lib.rs","""    writer.close()?;
    Ok(out.write_all(writer.data())?)""","""    writer.close()?;
    out.write(writer.data())?;
    Ok(())""")]
SCHEMA={"demo.zs":"package demo;\nstruct Order { string name; };"}
MAIN='''
mod gen; use gen::demo::*;
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let order = Order { name: "Jane Doe".into() };
    let mut w = W(vec![]);
    let r = zserio::to_writer(&mut w, &order);
    assert!(r.is_err() || w.0 == zserio::to_bytes(&order).unwrap());
}
'''
