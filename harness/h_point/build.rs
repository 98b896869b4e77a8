const DB: &str = "/repo/crates/zuban_python/src/database.rs";
fn main() {
    let t = extract::extract(
        DB,
        &["Point", "Points", "PointKind", "Specific", "Locality", "PartialFlags", "PointLink", "PointsBackup", "KIND_BIT_INDEX", "REST_MASK"],
        &["Database", "NodeRef", "ComplexPoint", "Arc", "Type"],
    );
    let mut t = format!("use std::{{cell::Cell, fmt, mem, ops::Range, sync::*, borrow::Cow}};\nuse crate::{{FileIndex, NodeIndex}};\n{t}");
    for e in ["Specific", "Locality"] {
        let vs = extract::variants(DB, e);
        t += &format!("pub(crate) const ALL_{}: &[{e}] = &[{}];\n", e.to_uppercase(), vs.iter().map(|v| format!("{e}::{v}")).collect::<Vec<_>>().join(","));
    }
    extract::write("points.rs", t);
}
