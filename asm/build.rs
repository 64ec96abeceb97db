// crate::parser without its grammar: the `peg` crate is not installed, so everything but the declarations is left out
use std::path::Path;

fn main() {
    let from = "/repo/compiler/src/parser.rs";
    println!("cargo:rerun-if-changed={from}");
    let text = std::fs::read_to_string(from).unwrap();
    let head = text.split("pub fn parse_file").next().unwrap();
    let head = head.split("peg::parser!").next().unwrap();
    let head: String = head.replace("use std::str::FromStr;", "");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(Path::new(&out).join("parser.rs"), head).unwrap();
}
