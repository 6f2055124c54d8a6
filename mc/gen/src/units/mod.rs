//! The schemas explored for each property.
use crate::ast::*;
use mccore::{Scalar, Val};
pub mod basics;
pub mod big;
pub mod enums;
pub mod expr;
pub mod names;
pub mod opt;
pub mod packed;
pub mod order;
pub mod params;
pub mod pos;
pub mod range;
pub mod sel;
pub mod templ;
pub mod wire;

/// Units of a property.
pub fn of(prop: &str, thorough: bool) -> Vec<Unit> {
    match prop {
        "C01" => basics::vars(thorough),
        "C02" => basics::fixed(thorough),
        "C03" => basics::texts(thorough),
        "C05" | "C06" => with(basics::packs(thorough), big::packs(thorough)),
        "C08" => basics::lengths(thorough),
        "C10" => basics::documents(thorough),
        "C11" => range::units(thorough),
        "C12" => with(wire::units(thorough), big::wire(thorough)),
        "C13" => with(opt::units(thorough), big::opt(thorough)),
        "C14" => with(sel::units(thorough), big::sel(thorough)),
        "C15" => pos::units(thorough),
        "C16" => expr::units(thorough),
        "C17" => enums::units(thorough),
        "C18" => order::units(thorough),
        "C19" => names::units(thorough),
        "C20" => templ::units(thorough),
        "C21" => with(params::units(thorough), big::params(thorough)),
        "C22" => all(thorough),
        "C23" => with(packed::units(thorough), big::packed(thorough)),
        "C04" | "C07" | "C09" => all(thorough),
        _ => vec![],
    }
}
fn with(mut a: Vec<Unit>, b: Vec<Unit>) -> Vec<Unit> {
    a.extend(b);
    a
}
/// The schemas of the other properties, for C18.
pub fn corpus(thorough: bool) -> Vec<Unit> {
    let mut v: Vec<Unit> = vec![];
    for p in ["C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C23", "C11", "C01", "C02", "C03", "C05", "C08", "C10"] {
        for u in of(p, thorough) {
            if !v.iter().any(|x| x.name == u.name) {
                v.push(u);
            }
        }
    }
    v
}
/// Everything that has a value and a wire form.
fn all(thorough: bool) -> Vec<Unit> {
    let mut v = vec![];
    for us in [wire::units(thorough), opt::units(thorough), sel::units(thorough), pos::units(thorough), params::units(thorough), packed::units(thorough), templ::units(thorough)] {
        for u in us {
            // layouts on which this compiler deliberately departs from the reference are C15's
            if !u.reference && !v.iter().any(|x: &Unit| x.name == u.name) {
                v.push(u);
            }
        }
    }
    v
}
/// Field names without digits or keywords.
pub fn vn(k: usize) -> String {
    format!("v{}", letters(k))
}
pub const KINDS: [Scalar; 22] = [
    Scalar::U(8),
    Scalar::U(16),
    Scalar::U(32),
    Scalar::U(64),
    Scalar::I(8),
    Scalar::I(16),
    Scalar::I(32),
    Scalar::I(64),
    Scalar::VarU16,
    Scalar::VarU32,
    Scalar::VarU64,
    Scalar::VarU,
    Scalar::VarSize,
    Scalar::Var16,
    Scalar::Var32,
    Scalar::Var64,
    Scalar::Var,
    Scalar::Bool,
    Scalar::F16,
    Scalar::F32,
    Scalar::F64,
    Scalar::Str,
];
pub const BLOBS: [Scalar; 2] = [Scalar::Bytes, Scalar::Extern];
pub fn kinds() -> Vec<Scalar> {
    let mut v = KINDS.to_vec();
    v.extend(BLOBS);
    v.extend([Scalar::U(1), Scalar::U(3), Scalar::U(13), Scalar::I(2), Scalar::I(5), Scalar::I(17)]);
    v
}
