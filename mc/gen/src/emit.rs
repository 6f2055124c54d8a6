//! mcemit <PROPERTY> <tier> <dir>: writes the schemas and bindings of a property's units.
use mcgen::units;
use std::path::Path;

fn put(path: &Path, text: &str) {
    if std::fs::read_to_string(path).is_ok_and(|t| t == text) {
        return;
    }
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, text).unwrap();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = Path::new(&a[3]);
    let mut names = vec![];
    for u in units::of(&a[1], a[2] == "thorough") {
        for p in &u.pkgs {
            put(&dir.join("zs").join(&u.name).join(p.path()), &p.zs());
        }
        put(&dir.join("src").join(format!("b_{}.rs", u.name)), &mcgen::bind::emit(&u));
        names.push(u.name.clone());
    }
    let mut d = names.clone();
    d.sort();
    d.dedup();
    assert_eq!(d.len(), names.len(), "duplicate unit names");
    println!("{}", names.join("\n"));
}
