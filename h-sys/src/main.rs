#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[path = "../../h-codec/src/refs.rs"]
#[allow(dead_code)]
mod refs;
mod p_discover;
mod p_path;
mod p_secret;
mod sys;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--entropy-child") {
        std::process::exit(p_secret::child(&args[2]));
    }
    engine::main(&[&p_secret::C09, &p_discover::C20, &p_path::C21]);
}
