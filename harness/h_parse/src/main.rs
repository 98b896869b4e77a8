#[path = "/repo/crates/parsa_python/src/tokenizer.rs"]
#[allow(dead_code)]
mod tokenizer;
mod backtracking_shim;
pub use parsa::InternalNode;
pub mod grammar {
    pub use parsa::Token;
}
mod dedent;
mod generate;
mod ignores;
mod literals;
mod numbers;
mod selection;
mod tokens;
mod tree;

fn main() {
    let mut r = common::Run::from_args();
    match r.prop.as_str() {
        "C01" | "C02" => tokens::run(&mut r),
        "C03" | "C04" => tree::run(&mut r),
        "C05" => backtracking_shim::run(&mut r),
        "C06" | "C07" => literals::run(&mut r),
        "C08" => dedent::run(&mut r),
        "C17" => selection::run(&mut r),
        "C25" => numbers::run(&mut r),
        "C24" => ignores::run(&mut r),
        p => panic!("unknown {p}"),
    }
    r.finish()
}
