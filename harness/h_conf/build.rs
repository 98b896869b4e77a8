fn main() {
    let a = extract::extract(
        "/repo/crates/config/src/lib.rs",
        &["OverrideKind", "OverridePathPart", "OverridePath", "OverrideConfig", "order_overrides_for_priority"],
        &["TypeCheckerFlags", "IniOrTomlValue", "to_value", "set_flag", "ConfigResult"],
    );
    let b = extract::extract("/repo/crates/zuban_python/src/file/python_file.rs", &["name_and_parent_dir"], &["Database", "InferenceState"]);
    let pre = "use std::{sync::*, borrow::Cow, collections::*};\nuse crate::shim::*;\n";
    extract::write("config.rs", format!("{pre}{a}"));
    extract::write("module.rs", format!("{pre}{b}"));
}
