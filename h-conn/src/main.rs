#[path = "../../h-codec/src/refs.rs"]
#[allow(dead_code)]
mod refs;
mod model;
mod scene;
mod world;

mod p_own;
mod p_reply;
mod p_screen;
mod p_split;

fn main() {
    engine::main(&[&p_split::C10, &p_reply::C11, &p_reply::C12, &p_own::C13, &p_screen::C14]);
}
