fn main() {
    let a = extract::extract("/repo/crates/zuban_python/src/file/python_file.rs", &["DirectiveSplitter"], &["Database", "InferenceState", "PythonFile"]);
    extract::write("directives.rs", format!("use std::{{sync::*, borrow::Cow, collections::*}};\nuse crate::shim::*;\n{a}"));
}
