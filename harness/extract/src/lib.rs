//! For build scripts: takes named top-level items out of a source file of /repo, with every
//! top-level item of the same file they mention, leaving out `deny` and methods that mention it.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeSet, HashSet};

fn idents(t: TokenStream, out: &mut HashSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => (),
        }
    }
}
fn all(t: &impl ToTokens) -> HashSet<String> {
    let mut s = HashSet::new();
    idents(t.to_token_stream(), &mut s);
    s
}
fn name(i: &syn::Item) -> Option<String> {
    Some(match i {
        syn::Item::Const(x) => x.ident.to_string(),
        syn::Item::Static(x) => x.ident.to_string(),
        syn::Item::Struct(x) => x.ident.to_string(),
        syn::Item::Enum(x) => x.ident.to_string(),
        syn::Item::Fn(x) => x.sig.ident.to_string(),
        syn::Item::Type(x) => x.ident.to_string(),
        syn::Item::Trait(x) => x.ident.to_string(),
        syn::Item::Macro(x) => x.ident.as_ref()?.to_string(),
        _ => return None,
    })
}

pub fn extract(path: &str, roots: &[&str], deny: &[&str]) -> String {
    println!("cargo:rerun-if-changed={path}");
    let src = std::fs::read_to_string(path).unwrap();
    let mut file = syn::parse_file(&src).unwrap();
    let denied = |s: &HashSet<String>| deny.iter().any(|d| s.contains(*d));
    // the test module goes
    file.items.retain(|i| !matches!(i, syn::Item::Mod(_)));
    for i in &mut file.items {
        if let syn::Item::Impl(im) = i {
            im.items.retain(|m| !denied(&all(m)));
        }
    }
    let mut want: BTreeSet<String> = roots.iter().map(|s| s.to_string()).collect();
    let mut out: Vec<usize> = vec![];
    loop {
        let before = out.len();
        for (k, i) in file.items.iter().enumerate() {
            if out.contains(&k) {
                continue;
            }
            let take = match i {
                syn::Item::Impl(im) => {
                    let t = match &*im.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                        _ => None,
                    };
                    t.is_some_and(|t| want.contains(&t)) && !denied(&all(&im.trait_.as_ref().map(|t| &t.1)))
                }
                i => name(i).is_some_and(|n| want.contains(&n) && !deny.contains(&n.as_str())),
            };
            if take {
                out.push(k);
                for n in all(i) {
                    if !deny.contains(&n.as_str()) {
                        want.insert(n);
                    }
                }
            }
        }
        if out.len() == before {
            break;
        }
    }
    out.sort();
    out.iter().map(|&k| {
        let mut i = file.items[k].clone();
        // `expect(dead_code)` would be wrong for a part of the file
        if let syn::Item::Impl(im) = &mut i {
            for m in &mut im.items {
                if let syn::ImplItem::Fn(f) = m {
                    f.attrs.retain(|a| !a.path().is_ident("expect"));
                }
            }
        }
        i.to_token_stream().to_string() + "\n"
    }).collect()
}

/// what an enum's variants are called
pub fn variants(path: &str, ident: &str) -> Vec<String> {
    let file = syn::parse_file(&std::fs::read_to_string(path).unwrap()).unwrap();
    file.items.iter().find_map(|i| match i {
        syn::Item::Enum(e) if e.ident == ident => Some(e.variants.iter().map(|v| v.ident.to_string()).collect()),
        _ => None,
    }).unwrap_or_default()
}

pub fn write(name: &str, text: String) {
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join(name), text).unwrap();
}
