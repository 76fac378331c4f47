mod gen;
mod p_idents;
mod p_msgs;
mod p_values;
mod p_wire;
mod refs;

fn main() {
    engine::main(&[
        &p_wire::C01,
        &p_wire::C02,
        &p_wire::C03,
        &p_wire::C22,
        &p_values::C04,
        &p_idents::C05,
        &p_idents::C06,
        &p_idents::C08,
        &p_msgs::C07,
    ]);
}
