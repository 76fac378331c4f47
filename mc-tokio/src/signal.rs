//! Signals, raised by the harness.

use crate::mc;
use std::future::Future;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub(crate) struct Signals {
    /// (signal, how often it has been raised), for signals that have a handler.
    raised: Vec<(i32, u64)>,
    waiting: Vec<Waker>,
    /// Signals that nobody handled.
    fatal: Vec<i32>,
}

fn signals() -> &'static mut Signals {
    &mut mc::rt().expect("outside of an execution").signals
}

/// Is there a handler for the signal?
pub fn handled(sig: i32) -> bool {
    signals().raised.iter().any(|r| r.0 == sig)
}

/// Raises a signal. False if there is no handler for it.
pub fn raise(sig: i32) -> bool {
    let ok = mc::uncounted(|| {
        let s = signals();
        match s.raised.iter_mut().find(|r| r.0 == sig) {
            Some(r) => {
                r.1 += 1;
                for w in std::mem::take(&mut s.waiting) {
                    w.wake();
                }
                true
            }
            None => {
                s.fatal.push(sig);
                false
            }
        }
    });
    mc::point("signal");
    ok
}

/// Waits for an interrupt that comes after the first poll.
pub async fn ctrl_c() -> std::io::Result<()> {
    unix::signal(unix::SignalKind::interrupt())?.recv().await;
    Ok(())
}

pub mod unix {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn interrupt() -> Self {
            SignalKind(libc::SIGINT)
        }
        pub const fn terminate() -> Self {
            SignalKind(libc::SIGTERM)
        }
        pub const fn hangup() -> Self {
            SignalKind(libc::SIGHUP)
        }
        pub const fn quit() -> Self {
            SignalKind(libc::SIGQUIT)
        }
        pub const fn child() -> Self {
            SignalKind(libc::SIGCHLD)
        }
        pub const fn pipe() -> Self {
            SignalKind(libc::SIGPIPE)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(libc::SIGUSR1)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(libc::SIGUSR2)
        }
        pub const fn window_change() -> Self {
            SignalKind(libc::SIGWINCH)
        }
    }

    #[derive(Debug)]
    pub struct Signal {
        sig: i32,
        seen: u64,
    }

    pub fn signal(kind: SignalKind) -> std::io::Result<Signal> {
        mc::point("signal");
        mc::uncounted(|| {
            let s = signals();
            if !s.raised.iter().any(|r| r.0 == kind.0) {
                s.raised.push((kind.0, 0));
            }
            let seen = s.raised.iter().find(|r| r.0 == kind.0).unwrap().1;
            Ok(Signal { sig: kind.0, seen })
        })
    }

    impl Signal {
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            let s = signals();
            let n = s.raised.iter().find(|r| r.0 == self.sig).unwrap().1;
            if n > self.seen {
                //several signals may be reported as one
                self.seen = n;
                return Poll::Ready(Some(()));
            }
            mc::uncounted(|| s.waiting.push(cx.waker().clone()));
            Poll::Pending
        }
        pub fn recv(&mut self) -> impl Future<Output = Option<()>> + '_ {
            std::future::poll_fn(move |cx| self.poll_recv(cx))
        }
    }
}
