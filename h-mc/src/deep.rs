//! Large inputs in one piece, on a stack of the usual size.

use crate::app::{self, App};
use crate::refs::render;
use engine::{Eng, Rec};
use vt6::server::tokio::Dispatch;
use vt6::server::{Connection, ReceiveBuffer};

struct Buf(Vec<u8>, usize);
impl ReceiveBuffer for Buf {
    fn contents(&self) -> &[u8] {
        &self.0[self.1..]
    }
    fn discard(&mut self, n: usize) {
        self.1 += n;
    }
}

fn unit(i: u8) -> Vec<u8> {
    match i {
        0 => render(b"t1.quiet", &[]),
        1 => render(b"t1.echo", &[b"x"]),
        2 => b"{".to_vec(),
        3 => b"}".to_vec(),
        4 => b"{1|".to_vec(),
        5 => b"{1|1:x".to_vec(),
        6 => b"{0|}".to_vec(),
        7 => render(b"nope", &[b"x"]),
        8 => render(b"want", &[b"core1"]),
        9 => render(b"t1.unknown", &[&[b'x'; 900]]),
        10 => render(b"core1.client-make", &[b"ab"]),
        11 => b"\x00".to_vec(),
        12 => b"{1|9999999999:".to_vec(),
        13 => render(b"t1.bc", &[]),
        _ => vec![b'{'; 1023],
    }
}
const UNITS: u8 = 15;
const MODES: u8 = 3;
const LENGTHS: [usize; 3] = [5_000, 100_000, 2_000_000];

pub fn enumerate(e: &Eng) {
    let lens = e.bound(2, 3);
    e.par(UNITS as usize * UNITS as usize * MODES as usize, |w, i| {
        let i = i as u32;
        let (a, b, m) = (i % UNITS as u32, i / UNITS as u32 % UNITS as u32, i / (UNITS as u32 * UNITS as u32));
        for l in 0..lens {
            w.case("deep", &[a as u8, b as u8, m as u8, l]);
        }
    });
}

/// A client that has said hello (or not) sends a long alternation of two units.
pub fn run(p: &[u8], r: &mut Rec) -> Result<(), String> {
    let (a, b, mode, len) = (p[0], p[1], p[2], LENGTHS[p[3] as usize]);
    let mut input = match mode {
        0 => vec![],
        1 => crate::scen::hello("a"),
        _ => crate::scen::hello("out:s"),
    };
    let two = [unit(a), unit(b)].concat();
    while input.len() < len {
        input.extend_from_slice(&two);
    }
    r.nontrivial = true;
    let th = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        app::reset(false);
        let d = Dispatch::new("/nonexistent", App).unwrap();
        app::set_dispatch(Some(d.clone()));
        let mut conn = Connection::<App, Dispatch<App>>::new(d, 1);
        let mut buf = Buf(input, 0);
        //as a receiver does it
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| conn.handle_incoming(&mut buf)));
        let (left, torn) = (buf.contents().len(), matches!(conn.state(), vt6::server::ConnectionState::Teardown));
        std::mem::drop(conn);
        app::set_dispatch(None);
        match r {
            Err(_) => Err(format!("panic: {}", engine::take_last_panic())),
            Ok(_) if left > 1024 && !torn => Err(format!("{} bytes were left pending", left)),
            Ok(_) => Ok(()),
        }
    });
    th.unwrap().join().unwrap_or_else(|_| Err("panic".into()))
}
