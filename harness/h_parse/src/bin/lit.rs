//! Development aid: decodes hex-encoded literals, one per line (used to validate the oracle of
//! C06/C07 against CPython).
use parsa_python::{NonterminalType, PyNodeType, TerminalType};
use parsa_python_cst::{PythonString, parse_python_bytes_literal};
fn main() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        let src = String::from_utf8(b).unwrap();
        let tree = parsa_python::parse(src.into());
        let mut out = "?".to_string();
        for n in tree.nodes() {
            let v = match n.type_() {
                PyNodeType::Terminal(TerminalType::Bytes) => parse_python_bytes_literal(n).to_vec(),
                PyNodeType::Nonterminal(NonterminalType::strings) => PythonString::new(n.iter_children()).as_str().unwrap_or("FSTRING").as_bytes().to_vec(),
                _ => continue,
            };
            out = v.iter().map(|b| format!("{b:02x}")).collect();
        }
        println!("{out}");
    }
}
