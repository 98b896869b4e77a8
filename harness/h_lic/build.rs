//! The licensing crate's source with the trusted keys replaced by keys whose private halves the
//! harness knows (seed k for key k), so that the entry points that use them can be driven too.
use quote::ToTokens;
fn main() {
    let path = "/repo/crates/licensing/src/lib.rs";
    println!("cargo:rerun-if-changed={path}");
    let mut f = syn::parse_file(&std::fs::read_to_string(path).unwrap()).unwrap();
    f.items.retain(|i| !matches!(i, syn::Item::Mod(_)));
    let mut n = 0;
    for i in &mut f.items {
        let (id, e) = match i {
            syn::Item::Const(c) => (c.ident.to_string(), &mut c.expr),
            syn::Item::Static(c) => (c.ident.to_string(), &mut c.expr),
            _ => continue,
        };
        if id == "VALID_PUBLIC_KEYS" {
            fn arr(e: &mut syn::Expr) -> Option<&mut syn::ExprArray> {
                match e {
                    syn::Expr::Array(a) => Some(a),
                    syn::Expr::Reference(r) => arr(&mut r.expr),
                    _ => None,
                }
            }
            let a = arr(e).expect("the key list is an array");
            n = a.elems.len();
            for (k, el) in a.elems.iter_mut().enumerate() {
                let key = ed25519_dalek::SigningKey::from_bytes(&[k as u8 + 1; 32]).verifying_key().to_bytes();
                *el = syn::parse_str(&format!("[{}]", key.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))).unwrap();
            }
        }
    }
    let t: String = f.items.iter().map(|i| i.to_token_stream().to_string() + "\n").collect();
    let t = t + &format!("pub const KEYS: usize = {n};\n") + &std::fs::read_to_string("src/inside.rs").unwrap();
    println!("cargo:rerun-if-changed=src/inside.rs");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("lic.rs"), t).unwrap();
}
