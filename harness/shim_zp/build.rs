fn main() {
    let t = extract::extract("/repo/crates/zuban_python/src/semantic_tokens.rs", &["SemanticTokenProperties"], &[]);
    extract::write("props.rs", t);
    let t = extract::extract("/repo/crates/zuban_python/src/lib.rs", &["InputPosition"], &[]);
    extract::write("pos.rs", t);
}
